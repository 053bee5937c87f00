"""C14: the wire form of every supported type, and its reader."""
import fw, proto, models, interp
from fw import *
from dom import *
from checks import check
from c_struct import tshort, isopt, isstruct, isunion, sameval
from c_wire import bitsof, canbe, instances_of
from c_coll import isvec, ilin

EV = ('gb', 'ev')
SCALAR = {'bool': 'byte', 'i8': 'byte', 'i16': 'i16', 'i32': 'i32', 'i64': 'i64', 'f64': 'double'}
def form(P, t):
    """(kind, operation) of the element form of a type with wrappers stripped: the compact protocol"""
    t = proto.inner(P, t); T = P.types[t]
    if T['s'] in SCALAR: return T['s'], SCALAR[T['s']]
    if proto.is_container(P, t): return 'container', None
    w = proto.wcode(P, t)
    if w == (5,): return 'enum', 'i32'
    if w == (8,):
        s = T['s']
        text = 'str' in s or 'String' in s
        return ('text', 'string') if text else ('bytes', 'binary')
    return None, None
def wrappers(P, t):
    out = []
    T = P.types[t]
    while T['k'] == 'adt' and T['name'].split('::')[-1] in ('Option', 'Box', 'Rc', 'Arc'):
        out.append(T['name'].split('::')[-1]); t = T['args'][0]; T = P.types[t]
    return out
def leafplace(I, st, obj, path, t):
    """place of the innermost value behind options and boxes: (obj, path) or 'none'"""
    P = I.P
    for w in wrappers(P, t):
        v = I.read(st, obj, path)
        if w == 'Option':
            v = I.force(st, v) if v[0] == 'top' else v
            if v[0] != 'en': return None
            if P.types[v[1]]['variants'][v[2]]['name'] == 'None': return 'none'
            path = path + (('d', v[2]), ('f', 0))
        else:
            if v[0] == 'bsl': return obj, path
            if v[0] != 'box': return None
            obj, path = v[1], ()
    return obj, path
def leafval(I, st, obj, path, t):
    p = leafplace(I, st, obj, path, t)
    if p is None or p == 'none': return p
    return I.read(st, p[0], p[1])
def scalar(I, st, v):
    """strip newtypes"""
    v = I.force(st, v) if v[0] == 'top' else v
    while v[0] in ('agg', 'top') and v[0] != 'i':
        n = I.sub(st, v, ('f', 0))
        if n == v or n[0] not in ('i', 'agg', 'top', 'b', 'f64'): break
        v = n
        if v[0] == 'i': break
    return v
def textcontent(I, st, v):
    v = I.force(st, v) if v[0] == 'top' else v
    if v[0] == 'en': return textcontent(I, st, v[3][0])   # Cow
    if v[0] == 'agg' and len(v[2]) == 1: return textcontent(I, st, v[2][0])
    return models.content(I, st, v)
def same(I, st, kind, leaf, val):
    """the leaf value is the value that went over the wire"""
    F = st.F
    if leaf == val: return True
    if kind in ('text', 'bytes'): return models.eqcontent(F, textcontent(I, st, leaf), textcontent(I, st, val))
    a, b = scalar(I, st, leaf), scalar(I, st, val)
    if a[0] == 'i' and b[0] == 'i':
        if a[2] == b[2] and a[3] == b[3]: return F.prove_eq(a[1], b[1]) or bitsof(F, a[1], a[2]) == bitsof(F, b[1], a[2])
        n = min(a[2], b[2]); return a[2] == b[2] and bitsof(F, a[1], n) == bitsof(F, b[1], n)
    if a[0] == 'f64' and b[0] == 'f64': return a == b or F.prove_eq(I.f64bits(a), I.f64bits(b))
    if a[0] == 'b' and b[0] == 'b': return F.rb(a[1]) == F.rb(b[1])
    return a == b and a[0] != 'top'
def boolof(I, st, v):
    v = scalar(I, st, v)
    return st.F.rb(v[1]) if v[0] == 'b' else None

class Rec:
    def event(s, I, st, name, outcome, args, ret, extra):
        if outcome in ('err', 'Err'): st.mon['failed'] = 1; return
        if isinstance(name, tuple):
            st.mem[EV] = st.mem.get(EV, ()) + ((name, tuple(args), ret),)
            if name[0] in ('fill', 'ffield') and args[0][0] == 'p': st.mem[('g', 'fillv')] = I.read(st, args[0][1], args[0][2])
    def exit(s, I, st, val): pass
def never(F, bit, val, extra):
    """bit == val implies the condition prepared by extra (assume on a copy) is impossible"""
    G = F.copy()
    if bit in (0, 1):
        if bit != val: return True
    elif not G.assume_bit(bit, val): return True
    return not extra(G) or G.dead

@check('C14', 'proof', 'for every supported type, borrowed, boxed, reference-counted and optional forms included: the operations of write_thrift / fill_thrift (and of the field forms, after the header) are compared with the form the compact protocol assigns to the type, operand and result are compared with the innermost value of self (linear and bit-level facts, content identity for strings); boolean fields are carried in the header only; every type code of the type is accepted by the reader',
       'abstract interpretation with symbolic operation sequences, compared with a table of wire forms',
       'Sound for all values of the listed types. Lists are C13, structs and unions C08/C15/C28, encoding sets C22.',
       floors={'entry point': 190, 'written form': 100, 'read form': 100, 'code accepted': 60})
def c14(ctx):
    P = ctx.lib
    def evs(I, st): return st.mem.get(EV, ())
    def runit(i, keep=None, args=None):
        proto._memo.clear()
        return ctx.run(P, i, hook=proto.Cut('Q', keep=[i.id]), monitors=[Rec()], args=args)
    # ---- writers
    for meth in ('write_thrift', 'write_thrift_field'):
        for l, i, t in instances_of(P, meth, 'out_abs'):
            kind, op = form(P, t)
            if not wrappers(P, t) and kind == 'container':
                if meth == 'write_thrift': continue
            I = runit(i)
            if not I: continue
            ctx.ob(kind is not None, 'entry point', l, 'the form of this type is not known', i.name)
            isfield = meth == 'write_thrift_field'
            for st, v in I.exits:
                a = I.args0[0]; F = st.F
                if proto.isok(I, v) is False:
                    if st.mon.get('failed'): continue
                    p = leafplace(I, st, a[1], a[2], t)
                    ok = p == 'none' and not isfield and proto.errname(I, st, v) == 'MissingValue' and not evs(I, st)
                    ctx.ob(ok, 'refusal', l, 'a value is refused with %s although nothing failed; events %s' % (proto.errname(I, st, v), tracestr(st)), i.name)
                    continue
                E = list(evs(I, st))
                p = leafplace(I, st, a[1], a[2], t)
                if p == 'none':
                    ctx.ob(isfield and not E, 'absent', l, 'an absent value is written: %s' % tracestr(st), i.name); continue
                names = [e[0][1] for e in E]
                if isfield:
                    h = 2 if names[1:2] == ['write_i16'] and len(names) > 1 and F.prove_eq(E[1][1][1][1], I.args0[2][1]) and all(x == 0 for x in bitsof(F, E[0][1][1][1], 8)[4:]) else 1
                    hd, E = E[:h], E[h:]
                    if not ctx.ob(bool(hd) and hd[0][0] == ('out', 'write_byte'), 'written form', l, 'no header is written; events %s' % tracestr(st), i.name): continue
                    if kind == 'bool':
                        leaf = boolof(I, st, leafval(I, st, a[1], a[2], t))
                        x = bitsof(F, hd[0][1][1][1], 8)
                        ok = not E and leaf is not None
                        ctx.ob(ok, 'written form', l, 'a boolean field is followed by a value: %s' % tracestr(st), i.name)
                        for val, code in ((1, 1), (0, 2)):
                            bad = [c for c in range(16) if c != code and leaf is not None and not never(F, leaf, val, lambda G: all(G.assume_bit(G.rb(b), c >> k & 1) for k, b in enumerate(x[:4])))]
                            ctx.ob(leaf is not None and not bad, 'boolean header', l, 'the type code in the header of %s may be %s' % (('false', 'true')[val], bad), i.name)
                        continue
                p0 = p
                if kind == 'container':
                    ok = len(E) == 1 and E[0][0] == ('wval', 'write_thrift') and E[0][1][0][0] in ('p', 'box') and p is not None and (I.deref(st, E[0][1][0])[:2] == p or ('g', 'fillv') in st.mem and sameval(I, st, I.read(st, p[0], p[1]), st.mem[('g', 'fillv')]))
                    if not wrappers(P, t) and isfield: ok = len(E) == 1 and E[0][0] == ('wval', 'write_thrift') and I.deref(st, E[0][1][0])[:2] == (a[1], a[2])
                    ctx.ob(ok, 'written form', l, 'the value behind the wrapper is not written exactly once: %s' % tracestr(st), i.name)
                    continue
                if not ctx.ob(len(E) == 1 and E[0][0] in (('out', 'write_' + op),) , 'written form', l, 'the value is written as %s instead of one %s' % ([e[0] for e in E], op), i.name): continue
                leaf = I.read(st, p[0], p[1]) if p else None
                arg = E[0][1][1]
                if kind == 'bool':
                    b = boolof(I, st, leaf); x = bitsof(F, arg[1], 8)
                    for val, code in ((1, 1), (0, 2)):
                        ok = b is not None
                        for k in range(8):
                            want = code >> k & 1
                            ok = ok and never(F, b, val, lambda G: G.assume_bit(G.rb(x[k]), 1 - want))
                        ctx.ob(ok, 'written value', l, 'the element written for %s is not %d' % (('false', 'true')[val], code), i.name)
                elif kind == 'i8':
                    ctx.ob(bitsof(F, scalar(I, st, leaf)[1], 8) == bitsof(F, arg[1], 8), 'written value', l, 'the byte written is not the value', i.name)
                else:
                    ctx.ob(leaf is not None and same(I, st, kind, leaf, arg), 'written value', l, 'the value written is not the value of self: %s / %s' % (leaf, arg), i.name)
    # ---- readers
    for meth in ('fill_thrift', 'fill_thrift_field'):
        for l, i, t in instances_of(P, meth, 'in_abs'):
            kind, op = form(P, t)
            isfield = meth == 'fill_thrift_field'
            if not wrappers(P, t) and kind == 'container' and not isfield: continue
            I = runit(i)
            if not I: continue
            ctx.ob(kind is not None, 'entry point', l, 'the form of this type is not known', i.name)
            codes = proto.wcode(P, t); acc = set()
            for st, v in I.exits:
                a = I.args0[0]; F = st.F
                if proto.isok(I, v) is False: continue
                if isfield:
                    ft = I.args0[2][1]
                    acc |= {c for c in codes if not F.prove_ne(ft, lc(c))}
                else: acc |= set(codes)
                E = list(evs(I, st))
                p = leafplace(I, st, a[1], a[2], t)
                if not ctx.ob(p not in (None, 'none'), 'read form', l, 'success without a value', i.name): continue
                if kind == 'container':
                    ok = len(E) == 1 and E[0][0] == ('fill', 'fill_thrift') and (I.deref(st, E[0][1][0])[:2] == p or ('g', 'fillv') in st.mem and sameval(I, st, I.read(st, p[0], p[1]), st.mem[('g', 'fillv')]))
                    ctx.ob(ok, 'read form', l, 'the value behind the wrapper is not decoded exactly once: %s' % tracestr(st), i.name)
                    continue
                leaf = I.read(st, p[0], p[1])
                if isfield and kind == 'bool':
                    b = boolof(I, st, leaf)
                    ctx.ob(not E, 'read form', l, 'decoding a boolean field consumes input: %s' % tracestr(st), i.name)
                    c = F.const(ft)
                    if c is not None: ok = b == {1: 1, 2: 0}.get(c)
                    else: ok = b is not None and all(never(F, b, 1 - val, lambda G: G.assume_eq(laddc(ft, -code))) for val, code in ((1, 1), (0, 2)))
                    ctx.ob(ok, 'read value', l, 'the boolean is not the one in the header', i.name)
                    continue
                if not ctx.ob(len(E) == 1 and E[0][0] == ('in', 'read_' + op), 'read form', l, 'the value is read as %s instead of one %s' % ([e[0] for e in E], op), i.name): continue
                ret = E[0][2]
                if kind == 'bool':
                    b = boolof(I, st, leaf)
                    for code, val in ((1, 1), (2, 0), (0, 0)):
                        ok = b is not None and never(F, b, 1 - val, lambda G: G.assume_eq(laddc(ret[1], -code)))
                        ctx.ob(ok, 'read value', l, 'the element byte %d is not decoded as %s' % (code, bool(val)), i.name)
                elif kind == 'i8':
                    ctx.ob(bitsof(F, scalar(I, st, leaf)[1], 8) == bitsof(F, ret[1], 8), 'read value', l, 'the value is not the byte read', i.name)
                else: ctx.ob(same(I, st, kind, leaf, ret), 'read value', l, 'the value stored is not the value read: %s / %s' % (leaf, ret), i.name)
            ctx.ob(acc == set(codes), 'code accepted', l, 'the type codes accepted are %s of %s' % (sorted(acc), codes), i.name)
            if kind == 'bool' and not isfield:
                oks = [st for st, v in I.exits if proto.isok(I, v) and evs(I, st)]
                for c in (0, 1, 2): ctx.ob(any(not st.F.prove_ne(evs(I, st)[0][2][1], lc(c)) for st in oks), 'code accepted', l + ' element %d' % c, 'the boolean element byte %d is refused' % c, i.name)


# ---------------------------------------------------------------- enums
@check('C32', 'proof', 'for every enum type: every successful exit of the decoder has read exactly one integer and stored exactly that number, and no exit refuses a number that was read; the encoder writes exactly one integer, the number of the value; the conversion from a number keeps it; the constants have the declared numbers',
       'abstract interpretation of MIR with symbolic numbers, comparison of constants',
       'Sound for all 2^32 numbers within the trusted base.',
       floors={'entry point': 24, 'number read': 8, 'number written': 8, 'number converted': 8, 'constant': 3})
def c32(ctx):
    P = ctx.lib; R = Roots(P); ts = {}
    def evs(st): return [e for e in st.mem.get(EV, ())]
    def number(I, st, obj, path): return scalar(I, st, I.read(st, obj, path))
    def run(i):
        proto._memo.clear()
        return ctx.run(P, i, hook=proto.Cut('Q', keep=[i.id]), monitors=[Rec()])
    for meth in ('fill_thrift', 'write_thrift'):
        for l, i, t in instances_of(P, meth, 'in_abs' if meth[0] == 'f' else 'out_abs'):
            if form(P, t)[0] != 'enum' or wrappers(P, t): continue
            ts[t] = 1
            I = run(i)
            if not I: continue
            ctx.ob(True, 'entry point', l)
            for st, v in I.exits:
                if proto.isok(I, v) is False:
                    ctx.ob(bool(st.mon.get('failed')), 'number refused', l, 'a number is refused although no operation failed; %s' % tracestr(st), i.name); continue
                E = evs(st); a = I.args0[0]
                n = number(I, st, a[1], a[2])
                if meth[0] == 'f':
                    ok = len(E) == 1 and E[0][0] == ('in', 'read_i32')
                    got = E[0][2] if ok else None
                    ctx.ob(ok and n[0] == 'i' and got is not None and got[0] == 'i' and st.F.prove_eq(n[1], got[1]), 'number read', l, 'the number stored is not the number read; %s' % tracestr(st), i.name)
                else:
                    ok = len(E) == 1 and E[0][0] == ('out', 'write_i32')
                    ctx.ob(ok and n[0] == 'i' and E[0][1][1][0] == 'i' and st.F.prove_eq(n[1], E[0][1][1][1]), 'number written', l, 'the number written is not the number of the value; %s' % tracestr(st), i.name)
    for n, i in sorted(R.fn.items()):
        if not n.startswith('enum_from_'): continue
        I = run(i)
        if not I: continue
        ctx.ob(True, 'entry point', n)
        for st, v in I.exits:
            x = scalar(I, st, v); ctx.ob(x[0] == 'i' and st.F.prove_eq(x[1], I.args0[0][1]), 'number converted', n, 'the conversion changes the number', i.name)
    for x in P.inherent:
        if x['self'].split('::')[-1] != 'HEnum': continue
        have = {c: (v - (1 << 32) if v >> 31 else v) for c, v in x['consts']}
        for c, v in (('ZERO', 0), ('ONE', 1), ('MINUS', -1)): ctx.ob(have.get(c) == v, 'constant', c, 'the constant declared as %d is %s' % (v, have.get(c)))
