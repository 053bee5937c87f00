"""Checks of struct and union (de)serialisation: a field automaton run in product with the abstract states."""
import fw, proto, models
from fw import *
from dom import *
from checks import check

def last(label): return label.split('/')[0].split('::')[-1]
def tshort(P, t): return P.types[t]['s'].replace('compact_thrift_parquet::format::', '').replace('std::', '')
WRAP = ('Option', 'Box', 'Rc', 'Arc')
def isstruct(P, t):
    T = P.types[t]
    return T['k'] == 'adt' and T['name'].split('::')[-1] not in WRAP and proto.wcode(P, t) == (12,) and T['kind'] == 'struct'
def isunion(P, t):
    T = P.types[t]
    return T['k'] == 'adt' and T['name'].split('::')[-1] not in WRAP and proto.wcode(P, t) == (12,) and T['kind'] == 'enum'
def isopt(P, t):
    T = P.types[t]
    return T['k'] == 'adt' and T['name'].split('::')[-1] == 'Option'
def structs(P):
    R = Roots(P)
    return [(l, i, t) for l, i, t, m in R.methods('fill_thrift') if l.endswith('in_abs') and isstruct(P, t)]
def unions(P):
    R = Roots(P)
    return [(l, i, t) for l, i, t, m in R.methods('fill_thrift') if l.endswith('in_abs') and isunion(P, t)]
def writers(P, pred):
    R = Roots(P)
    return [(l, i, t) for l, i, t, m in R.methods('write_thrift') if l.endswith('out_abs') and pred(P, t)]
def members(P, t):
    """[(name, type)] of a struct, or of a union's variants"""
    T = P.types[t]
    if T['kind'] == 'struct': return [(f[0], f[1]) for f in T['variants'][0]['fields']]
    return [(v['name'], v['fields'][0][1] if v['fields'] else None) for v in T['variants']]

GT = ('g', 'ht'); GI = ('g', 'hid')
class Read:
    """header -> exactly one of {fill of the member with that id, skip} -> ... ; 'stop' ends it.
    Collects the map member -> id and emits obligations through s.emit(rule, ok, key, msg, where)."""
    def __init__(s, ctx, P, t, union, emit):
        s.ctx = ctx; s.P = P; s.t = t; s.union = union; s.emit = emit
        s.ids = {}; s.skips = []; s.reads = []
        s.mem = members(P, t)
    def ob(s, I, st, rule, ok, key, msg):
        if I.quiet: return ok
        w = I.where(st)
        s.emit(rule, ok, '%s:%s' % (tshort(s.P, s.t), key), msg + ('' if ok else '; events %s' % tracestr(st)), w.inst.name)
        return ok
    def selfobj(s, I):
        a = I.args0[0]
        return a[1] if a[0] == 'p' and not a[2] else None
    def member(s, I, args):
        a = args[0]
        if a[0] not in ('p', 'box') or a[1] != s.selfobj(I): return None
        p = a[2] if a[0] == 'p' else ()
        if s.union:
            if len(p) == 2 and p[0][0] == 'd' and p[1] == ('f', 0): return p[0][1]
            return None
        if len(p) == 1 and p[0][0] == 'f': return p[0][1]
        return None
    def event(s, I, st, name, outcome, args, ret, extra):
        if not isinstance(name, tuple): return
        k, m = name
        h = st.mon.get('h', 'start')
        if k == 'in' and m == 'read_field_header':
            s.ob(I, st, 'header', h in (('start',) if s.union else ('start', 'done')), 'header', 'a field header is read while a field is unfinished (state %s)' % h)
            st.mon['h'] = 'pending' if outcome == 'ok' else 'failed'
            if outcome == 'ok':
                ob, pa, _ = I.deref(st, args[1])
                v = I.read(st, ob, pa)
                prev = I.lastprev; want = st.mem[GI][1] if h == 'done' else ZERO
                s.ob(I, st, 'chain', prev[0] == 'i' and st.F.prove_eq(prev[1], want), 'chain', 'a field header is read relative to %s instead of the previous field id' % (lstr(st.F.norm(prev[1])) if prev[0] == 'i' else prev[:2],))
                st.mem[GI] = v; st.mem[GT] = ret
            return
        if outcome != 'ok':
            st.mon['h'] = 'failed'
            if k in ('fill', 'ffield') and h == 'pending': s.checkfill(I, st, m, k, args, extra, False)
            return
        if k in ('fill', 'ffield'):
            if not s.ob(I, st, 'fill', h == 'pending', 'fill', 'a field is decoded without a header of its own (state %s)' % h): return
            s.checkfill(I, st, m, k, args, extra, True)
            st.mon['h'] = 'done'
            return
        if k == 'in' and m == 'skip_field' and not s.union:
            if not s.ob(I, st, 'skip', h == 'pending', 'skip', 'a field is skipped twice or without a header (state %s)' % h): return
            ht = st.mem.get(GT)
            s.ob(I, st, 'skip type', args[1][0] == 'i' and st.F.prove_eq(args[1][1], ht[1]), 'skip', 'the skipped type is not the type of the header')
            if not I.quiet: s.skips.append((st.F.copy(), st.mem[GI][1], I.where(st).inst.name, tracestr(st)))
            st.mon['h'] = 'done'
            return
        if k == 'in' and m == 'read_byte' and s.union:
            s.ob(I, st, 'stop', h == 'done', 'stop', 'a byte is read before the field is decoded (state %s)' % h)
            st.mon['h'] = 'stop'; st.mem[('g', 'stop')] = ret
            return
        s.ob(I, st, 'other event', False, '%s %s' % (k, m), 'unexpected operation %s in state %s' % (name, h))
    def checkfill(s, I, st, m, k, args, extra, report):
        j = s.member(I, args)
        if j is None and s.union and args[0][0] == 'p' and args[0][1] != s.selfobj(I):
            # decoded into a local first: which variant it becomes is checked at the end
            ht = st.mem[GT][1]
            if k == 'ffield': s.ob(I, st, 'field type', args[2][0] == 'i' and st.F.prove_eq(args[2][1], ht), 'local', 'a payload is decoded with a type code that is not the one of its header')
            else: s.ob(I, st, 'field type', False, 'local', 'a payload is decoded without checking the type code of its header (%s)' % lstr(st.F.norm(ht)))
            if report: st.mem[('g', 'fillv')] = I.read(st, args[0][1], args[0][2]); st.mon['loc'] = 1
            return
        if j is None:
            s.ob(I, st, 'member', False, 'member', 'a field is decoded into something that is not a member of the value: %s' % (args[0],)); return
        c = st.F.const(st.F.norm(st.mem[GI][1]))
        nm = s.mem[j][0]
        if not I.quiet:
            if c is None:
                s.ob(I, st, 'member id', False, nm, 'member %s is decoded for more than one field id' % nm)
            else:
                s.ids.setdefault(j, set()).add(c)
        ht = st.mem[GT][1]
        if k == 'ffield':
            a = args[2]
            s.ob(I, st, 'field type', a[0] == 'i' and st.F.prove_eq(a[1], ht), nm, 'member %s is decoded with a type code that is not the one of its header' % nm)
        else:
            codes = proto.wcode(s.P, s.mem[j][1]) or ()
            ok = any(st.F.prove_eq(ht, lc(x)) for x in codes) and codes != (1, 2)
            s.ob(I, st, 'field type', ok, nm, 'member %s is decoded without checking the type code of its header (%s)' % (nm, lstr(st.F.norm(ht))))
    def write(s, I, st, obj, path, val):
        if s.union or obj != s.selfobj(I): return
        s.ob(I, st, 'direct write', False, 'write', 'the value is modified outside the decoding of a field: %s' % (path,))
    def exit(s, I, st, val):
        if I.quiet: return
        if proto.isok(I, val) is False: return
        h = st.mon.get('h', 'start')
        F = st.F
        if s.union:
            z = st.mem.get(('g', 'stop'))
            ok = s.ob(I, st, 'exit', proto.isok(I, val) and h == 'stop', 'exit', 'success in state %s' % h)
            if not ok: return
            s.ob(I, st, 'exit', F.prove_eq(z[1], ZERO), 'stop', 'success although the byte after the field is not a stop byte')
            v = I.read(st, s.selfobj(I), ())
            ok = v[0] == 'en'
            if s.ob(I, st, 'exit', ok, 'variant', 'the decoded variant is not determined'):
                c = F.const(F.norm(st.mem[GI][1]))
                if st.mon.get('loc'):
                    nm = s.mem[v[2]][0]
                    s.ob(I, st, 'member', len(v[3]) == 1 and sameval(I, st, v[3][0], st.mem[('g', 'fillv')]), 'member', 'variant %s does not hold the payload that was decoded' % nm)
                    if c is None: s.ob(I, st, 'member id', False, nm, 'variant %s is decoded for more than one field id' % nm)
                    else: s.ids.setdefault(v[2], set()).add(c)
                s.ob(I, st, 'exit', c is not None and s.ids.get(v[2]) == {c}, 'variant', 'variant %s is the result for field id %s' % (s.mem[v[2]][0], c))
                s.reads.append((v[2], c))
        else:
            ok = s.ob(I, st, 'exit', proto.isok(I, val) and h == 'pending', 'exit', 'success in state %s, not after a stop byte' % h)
            if ok: s.ob(I, st, 'exit', F.prove_eq(st.mem[GT][1], ZERO), 'exit', 'success although the last header (type %s) is not a stop byte' % lstr(F.norm(st.mem[GT][1])))

def runread(ctx, P, inst, t, union, emit):
    proto._memo.clear()
    M = Read(ctx, P, t, union, emit)
    def setup(I):
        I.on_write = M.write
    I = ctx.run(P, inst, hook=proto.Cut('Q', ffield=True), monitors=[M], setup=setup)
    if I is None: return None, M
    nm = tshort(P, t)
    for j, (n, mt) in enumerate(M.mem):
        ids = M.ids.get(j, set())
        emit('member ids', len(ids) == 1, '%s:%s' % (nm, n), 'member %s is decoded under the field ids %s' % (n, sorted(ids)), inst.name)
    allids = sorted(x for v in M.ids.values() for x in v)
    emit('member ids', len(set(allids)) == len(allids), nm, 'two members share a field id: %s' % allids, inst.name)
    for F, l, w, tr in M.skips:
        known = [c for c in allids if not F.prove_ne(l, lc(c))]
        emit('skip id', not known, nm, 'fields with the declared ids %s may be skipped instead of decoded; events %s' % (known, tr), w)
    if union:
        got = {k for k, c in M.reads}
        emit('variants', got == set(range(len(M.mem))), nm, 'some variants are never decoded', inst.name)
    return I, M

def only(ctx, rules):
    """an emitter that reports the given rules only"""
    def emit(rule, ok, key, msg, where):
        if rule in rules: ctx.ob(ok, rule, key, msg, where)
    return emit

@check('C08', 'proof', 'field automaton run in product with the abstract states of every struct decoder: after a header with a non-zero type exactly one of (decode of the member with that id, skip with the header type) happens, ids that are declared are never skipped, the value is only modified by decoding a member, success only after a stop header',
       'typestate analysis (field automaton) over the abstract states of every struct decoder',
       'Sound for all inputs within the trusted base; what a skip consumes is C10.',
       floors={'entry point': 45})
def c08(ctx):
    P = ctx.lib
    R = ('header', 'chain', 'fill', 'skip', 'skip type', 'skip id', 'other event', 'member', 'member id', 'direct write', 'exit', 'member ids')
    for l, i, t in structs(P):
        I, M = runread(ctx, P, i, t, False, only(ctx, R))
        if I:
            ctx.ob(True, 'entry point', l)
            ctx.ob(len(M.skips) > 0, 'unknown field', tshort(P, t), 'no path skips an unknown field', i.name)
            ctx.sample('%s: %s' % (tshort(P, t), {M.mem[j][0]: sorted(v) for j, v in sorted(M.ids.items())}))

@check('C28', 'proof', 'union automaton run in product with the abstract states of every union decoder: one header with a non-zero type, decode of the payload of the variant with that id under that type, one byte proven zero, success only then and with that variant; every other path is an error',
       'typestate analysis (union automaton) over the abstract states of every union decoder',
       'Sound for all inputs within the trusted base.',
       floors={'entry point': 8})
def c28(ctx):
    P = ctx.lib
    R = ('header', 'chain', 'fill', 'field type', 'stop', 'other event', 'member', 'member id', 'exit', 'member ids', 'variants')
    for l, i, t in unions(P):
        I, M = runread(ctx, P, i, t, True, only(ctx, R))
        if I:
            ctx.ob(True, 'entry point', l)
            errs = [proto.errname(I, st, v) for st, v in I.exits if proto.isok(I, v) is False and st.mon.get('h') == 'pending']
            ctx.ob(len(errs) > 0, 'unknown variant', tshort(P, t), 'no path refuses an unknown field id', i.name)
            for st, v in I.exits:
                if proto.isok(I, v) is False and st.mon.get('h') == 'pending': name_ok(ctx, I, st, v, P, t, i, 'union error name')

def errorname(I, st, v):
    """the string stored in Err(MissingField(name)), or None"""
    e = v[3][0]
    e = I.force(st, e) if e[0] == 'top' else e
    if e[0] != 'en' or I.P.types[e[1]]['variants'][e[2]]['name'] != 'MissingField': return None
    n = I.sub(st, e[3][0], ('f', 0))
    if n[0] == 'ep': obj, path, off = n[1], n[2], n[3]
    elif n[0] == 'sl': obj, path, off = n[1], n[2], n[3]
    elif n[0] == 'cptr': obj, path, off = n[1], n[2], n[3]
    else: return None
    q = I.read(st, obj, path)
    if q[0] != 'seq' or q[3][0] != 'const': return None
    b = bytes(q[3][1]); o = st.F.const(off) or 0
    return b[o:].split(b'\0')[0].decode('utf8', 'replace')
def name_ok(ctx, I, st, v, P, t, inst, rule):
    e = proto.errname(I, st, v)
    if e != 'MissingField': return
    n = errorname(I, st, v)
    ctx.ob(n is not None and n.split('::')[0] == P.types[t]['name'].split('::')[-1], rule, tshort(P, t), 'the error names %r' % n, inst.name)

@check('C07', 'proof', 'per required member of every struct: typestate monitor for that member in product with the abstract states; every successful exit is reached with the member decoded, every refusal without a failed operation is MissingField naming a member that was not decoded',
       'typestate analysis (per required member) over the abstract states of every struct decoder',
       'Sound for all inputs within the trusted base.',
       floors={'entry point': 45, 'required member': 60})
def c07(ctx):
    P = ctx.lib
    quiet = lambda *a: None
    for l, i, t in structs(P):
        mem = members(P, t)
        req = [j for j, (n, mt) in enumerate(mem) if not isopt(P, mt)]
        for j in req or [None]:
            M0 = Read(ctx, P, t, False, quiet)
            class M:
                def event(s, I, st, name, outcome, args, ret, extra):
                    if outcome == 'err': st.mon['failed'] = 1
                    if isinstance(name, tuple) and name[0] in ('fill', 'ffield') and outcome == 'ok' and j is not None and M0.member(I, args) == j: st.mon['seen'] = 1
                def exit(s, I, st, v):
                    if I.quiet: return
                    nm = tshort(P, t)
                    if proto.isok(I, v) is not False:
                        if j is not None: ctx.ob(st.mon.get('seen') == 1, 'required member', '%s:%s' % (nm, mem[j][0]), 'decoding succeeds without the required member %s; events %s' % (mem[j][0], tracestr(st)), i.name)
                    elif not st.mon.get('failed'):
                        e = proto.errname(I, st, v); n = errorname(I, st, v) if e == 'MissingField' else None
                        ok = e == 'MissingField' and j is not None
                        ctx.ob(ok, 'refusal', nm, 'a value is refused with %s although no operation failed; events %s' % (e, tracestr(st)), i.name)
                        if ok:
                            ctx.ob(n is not None and '::' in n, 'refusal name', nm, 'the name of the missing member cannot be determined', i.name)
                            if n and n.split('::')[-1].replace('r#', '') == mem[j][0].replace('r#', ''):
                                ctx.ob(not st.mon.get('seen'), 'refusal', '%s:%s' % (nm, mem[j][0]), 'member %s is reported missing although it was decoded' % n, i.name)
                                named[0] += 1
                            ctx.ob(n is not None and n.split('::')[-1].replace('r#', '') in [x[0].replace('r#', '') for k, x in enumerate(mem) if k in req] and n.split('::')[0] == P.types[t]['name'].split('::')[-1], 'refusal name', nm, 'the error names %r' % n, i.name)
            named = [0]
            proto._memo.clear()
            I = ctx.run(P, i, hook=proto.Cut('Q', ffield=True), monitors=[M()])
            if I and j is not None:
                ctx.ob(named[0] > 0, 'refusal', '%s:%s' % (tshort(P, t), mem[j][0]), 'no path reports the required member %s as missing' % mem[j][0], i.name)
        ctx.ob(True, 'entry point', l)

def instances(P, method, io, pred=lambda t: True):
    """[(type name, inst, type)] of every monomorphic instance of a protocol method over the abstract input/output"""
    proto._memo.clear(); out = {}
    for i in P.insts:
        if not i.body or not i.user: continue
        c = proto.classify(P, i)
        if c is None or c[0] != 'proto' or c[1] != method or c[2] is None or not pred(c[2]): continue
        if not any(P.types[a]['s'].endswith(io) for a in i.args if isinstance(a, int)) and io not in i.name: continue
        out[i.id] = (tshort(P, c[2]), i, c[2])
    return [out[k] for k in sorted(out)]

def oneof(F, l, codes):
    l = F.norm(l)
    if any(F.prove_eq(l, lc(c)) for c in codes): return True
    return len(codes) > 1 and F.prove_ge(laddc(l, -min(codes))) and F.prove_ge(laddc(lneg(l), max(codes)))

def elemtype(P, t):
    """element type codes of a list type, or None"""
    T = P.types[t]; b = T['name'].split('::')[-1] if T['k'] == 'adt' else ''
    if b == 'EncodingSet': return (5,)
    if b == 'Vec' and proto.wcode(P, t) == (9,): return proto.wcode(P, T['args'][0])
    return None

@check('C06', 'proof', 'for every fill_thrift_field instance analysed with an unconstrained type code: no input event and no success unless the code is entailed to be one the type encodes to; for every list decoder: no element is read and no success unless the low nibble of the header is entailed to be the element code; every struct and union passes the type of the header on',
       'typestate analysis over abstract states, type code symbolic',
       'Sound for all inputs within the trusted base, for every instance of the generic implementations used by the bundled and the probe types.',
       floors={'entry point': 200})
def c06(ctx):
    P = ctx.lib
    for l, i, t in instances(P, 'fill_thrift_field', 'AbsIn'):
        codes = proto.wcode(P, t)
        if codes is None: ctx.undecided(l, 'no wire type is known for this type'); continue
        class M:
            def chk(s, I, st, what):
                if I.quiet: return
                v = I.args0[2]
                ctx.ob(v[0] == 'i' and oneof(st.F, v[1], codes), 'type code', l, '%s although the type code may be %s, not %s; events %s' % (what, lstr(st.F.norm(v[1])), codes, tracestr(st)), i.name)
            def event(s, I, st, name, outcome, args, ret, extra):
                if isinstance(name, tuple): s.chk(I, st, 'operation %s' % (name,))
            def exit(s, I, st, v):
                if proto.isok(I, v) is not False: s.chk(I, st, 'success')
        proto._memo.clear()
        I = ctx.run(P, i, hook=proto.Cut('Q', keep=[i.id]), monitors=[M()])
        ctx.ob(True, 'entry point', l)
    for l, i, t in instances(P, 'fill_thrift', 'AbsIn', lambda t: elemtype(P, t) is not None):
        codes = elemtype(P, t); et = P.types[t]['args'][0] if P.types[t].get('args') else None
        class M:
            def event(s, I, st, name, outcome, args, ret, extra):
                h = st.mon.get('h')
                if h is None and name == ('in', 'read_byte'):
                    if outcome == 'ok':
                        b = st.F.bits(ret[1])[0]
                        st.mon['h'] = 1; st.mem[GT] = ('i', mkbits(tuple(b[:4]), 0), 8, False)
                    return
                if h == 1 and name == ('in', 'read_len'):
                    st.mon['h'] = 2; return
                s.chk(I, st, 'operation %s' % (name,))
            def chk(s, I, st, what):
                if I.quiet: return
                g = st.mem.get(GT)
                ctx.ob(g is not None and oneof(st.F, g[1], codes), 'element code', l, '%s although the element type code may be %s, not %s; events %s' % (what, lstr(st.F.norm(g[1])) if g else 'unread', codes, tracestr(st)), i.name)
            def exit(s, I, st, v):
                if proto.isok(I, v) is not False: s.chk(I, st, 'success')
        proto._memo.clear()
        I = ctx.run(P, i, hook=proto.Cut('Q', keep=[i.id], elem=et), monitors=[M()])
        ctx.ob(True, 'entry point', 'list ' + l)
    for l, i, t in structs(P): runread(ctx, P, i, t, False, only(ctx, ('field type', 'member', 'header'))); ctx.ob(True, 'entry point', l)
    for l, i, t in unions(P): runread(ctx, P, i, t, True, only(ctx, ('field type', 'member', 'header'))); ctx.ob(True, 'entry point', l)

@check('C09', 'proof', 'for every Option decoder analysed with a value already present: the only outcome is the duplicate-field error, with no input event and no write to the value; the struct decoders reach the member of an optional field only through those decoders (C08)',
       'typestate and effect analysis over abstract states, option already occupied',
       'Sound for all inputs and all payload types of the bundled and the probe types within the trusted base.',
       floors={'entry point': 45, 'duplicate': 45})
def c09(ctx):
    P = ctx.lib
    for meth in ('fill_thrift', 'fill_thrift_field'):
        for l, i, t in instances(P, meth, 'AbsIn', lambda t: isopt(P, t)):
            def before(I, st, a):
                o = a[0]
                v = I.read(st, o[1], o[2])
                some = [k for k, x in enumerate(P.types[t]['variants']) if x['name'] == 'Some'][0]
                if v[0] == 'top': st.ch[v[2]] = some
                else: st.mem[o[1]] = ('en', t, some, tuple(I.mk_top(f, ('some', 0)) for f in P.fields(t, some)))
            def wr(I, st, obj, path, val):
                if obj[0] == 'obj': ctx.ob(False, 'write', l, 'the value already held is modified: %s' % (path,), i.name)
            class M:
                def event(s, I, st, name, outcome, args, ret, extra):
                    if not I.quiet: ctx.ob(False, 'event', l, 'operation %s although the field is a duplicate' % (name,), i.name)
                def exit(s, I, st, v):
                    if not I.quiet: ctx.ob(proto.isok(I, v) is False and proto.errname(I, st, v) == 'DuplicateField', 'duplicate', l, 'a duplicate field ends in %s; events %s' % (v[:3], tracestr(st)), i.name)
            proto._memo.clear()
            ctx.run(P, i, hook=proto.Cut('Q', keep=[i.id]), monitors=[M()], before=before, setup=lambda I: setattr(I, 'on_write', wr))
            ctx.ob(True, 'entry point', l + '/' + meth)

# ---------------------------------------------------------------- writers
GL = ('g', 'wlast')
class Write:
    """every member exactly once under its own id, ids chained, then one stop byte"""
    def __init__(s, ctx, P, t, union, emit):
        s.P = P; s.t = t; s.union = union; s.emit = emit; s.mem = members(P, t); s.ids = {}
    def ob(s, I, st, rule, ok, key, msg):
        if I.quiet: return ok
        w = I.where(st)
        s.emit(rule, ok, '%s:%s' % (tshort(s.P, s.t), key), msg + ('' if ok else '; events %s' % tracestr(st)), w.inst.name)
        return ok
    def selfobj(s, I): return I.args0[0][1]
    def member(s, I, v):
        if v[0] not in ('p', 'box') or v[1] != s.selfobj(I): return None
        p = v[2] if v[0] == 'p' else ()
        if s.union: return p[0][1] if len(p) == 2 and p[0][0] == 'd' and p[1] == ('f', 0) else None
        if len(p) == 1 and p[0][0] == 'f': return p[0][1]
        if len(p) == 3 and p[0][0] == 'f' and p[1][0] == 'd' and p[2] == ('f', 0) and isopt(s.P, s.mem[p[0][1]][1]): return p[0][1]
        return None
    def event(s, I, st, name, outcome, args, ret, extra):
        if not isinstance(name, tuple): return
        if outcome != 'ok':
            st.mon['w'] = 'failed'; return
        k, m = name
        w = st.mon.get('w', ())
        if w == 'stop' or w == 'failed':
            s.ob(I, st, 'after stop', False, 'stop', 'operation %s after the end of the value' % (name,)); return
        if k == 'wfield':
            j = s.member(I, args[0])
            if not s.ob(I, st, 'member', j is not None, 'member', 'a field is written from something that is not a member of the value: %s' % (args[0],)): return
            c = st.F.const(st.F.norm(args[2][1])) if args[2][0] == 'i' else None
            nm = s.mem[j][0]
            if s.ob(I, st, 'member id', c is not None, nm, 'the id of member %s is not a constant' % nm) and not I.quiet: s.ids.setdefault(j, set()).add(c)
            s.ob(I, st, 'once', j not in w, nm, 'member %s is written twice' % nm)
            if s.union: s.ob(I, st, 'once', not w, nm, 'more than one variant is written')
            prev = I.lastprev; g = st.mem.get(GL)
            ok = prev[0] == 'i' and st.F.prove_eq(prev[1], g[1] if g else ZERO)
            s.ob(I, st, 'chain', ok, nm, 'the field header is written relative to %s instead of the previous field id' % (lstr(st.F.norm(prev[1])) if prev[0] == 'i' else prev[:2],))
            ob, pa, _ = I.deref(st, args[3]); st.mem[GL] = I.read(st, ob, pa)
            st.mon['w'] = tuple(sorted(set(w) | {j}))
            return
        if k == 'out' and m == 'write_byte':
            s.ob(I, st, 'stop byte', args[1][0] == 'i' and st.F.prove_eq(args[1][1], ZERO), 'stop', 'a byte other than the stop byte is written')
            st.mon['w'] = 'stop'; st.mon['ws'] = w
            return
        s.ob(I, st, 'other event', False, '%s %s' % (k, m), 'unexpected operation %s' % (name,))
    def exit(s, I, st, val):
        if I.quiet: return
        if proto.isok(I, val) is False:
            s.ob(I, st, 'refusal', st.mon.get('w') == 'failed', 'exit', 'a value is refused although no operation failed')
            return
        ok = s.ob(I, st, 'exit', st.mon.get('w') == 'stop', 'exit', 'success without a stop byte')
        if not ok: return
        w = st.mon.get('ws')
        v = I.read(st, s.selfobj(I), ())
        if s.union:
            s.ob(I, st, 'exit', len(w) == 1 and (v[0] == 'en' and v[2] == w[0] or v[0] == 'top' and len(s.mem) == 1), 'variant', 'the variant written is not the active one')
            return
        for j, (n, mt) in enumerate(s.mem):
            if j in w: continue
            x = I.sub(st, v, ('f', j)); x = I.force(st, x) if x[0] == 'top' else x
            none = isopt(s.P, mt) and x[0] == 'en' and s.P.types[mt]['variants'][x[2]]['name'] == 'None'
            s.ob(I, st, 'exit', none, n, 'member %s is not written' % n)

def runwrite(ctx, P, inst, t, union, emit):
    proto._memo.clear()
    M = Write(ctx, P, t, union, emit)
    I = ctx.run(P, inst, hook=proto.Cut('Q', wfield=True), monitors=[M])
    return I, M

def sameval(I, st, a, b):
    if a == b: return True
    if a[0] == 'i' and b[0] == 'i': return st.F.prove_eq(a[1], b[1])
    if a[0] == 'b' and b[0] == 'b': return st.F.rb(a[1]) == st.F.rb(b[1])
    if a[0] == 'top' and b[0] in ('agg', 'en'):
        fs = b[2] if b[0] == 'agg' else b[3]
        a = I.force(st, a)
        if b[0] == 'en':
            return a[0] == 'en' and a[2] == b[2] and all(sameval(I, st, I.sub(st, a, ('f', k)), x) for k, x in enumerate(fs))
        return all(sameval(I, st, I.sub(st, a, ('f', k)), x) for k, x in enumerate(fs))
    if a[0] in ('agg', 'en') and b[0] == a[0] and len(a) == len(b): return a[1:-1] == b[1:-1] and len(a[-1]) == len(b[-1]) and all(sameval(I, st, x, y) for x, y in zip(a[-1], b[-1]))
    return False

def membersout(ctx, P):
    """the encoders of members of every type: what is present is written, what is absent is not"""
    import c_forms as cf
    for l, i, t in cf.instances_of(P, 'write_thrift_field', 'out_abs'):
        proto._memo.clear()
        I = ctx.run(P, i, hook=proto.Cut('Q', keep=[i.id]), monitors=[cf.Rec()])
        if not I: continue
        for st, v in I.exits:
            if proto.isok(I, v) is False: continue
            a = I.args0[0]; E = st.mem.get(cf.EV, ())
            if 'Option' in cf.wrappers(P, t) and cf.leafplace(I, st, a[1], a[2], t) == 'none': ctx.ob(not E, 'absent member', l, 'an absent member is written: %s' % tracestr(st), i.name)
            else: ctx.ob(bool(E) and E[0][0] == ('out', 'write_byte'), 'present member', l, 'a present member may be left out: %s' % tracestr(st), i.name)
@check('C15', 'proof', 'write automaton run in product with the abstract states of every struct and union encoder (each member written exactly once, or proven absent, under one constant id, ids chained, then one stop byte); the map id -> member extracted from it is compared with the one extracted from the decoder; every constructor argument ends in the member of its position',
       'typestate analysis (write automaton) and comparison of the extracted field maps',
       'Sound for all values within the trusted base, for every bundled and probe type.',
       floors={'entry point': 90, 'same id': 150, 'constructor': 45, 'present member': 60, 'absent member': 8})
def c15(ctx):
    P = ctx.lib
    R = None
    wr = {}
    for pred, un in ((isstruct, False), (isunion, True)):
        for l, i, t in writers(P, pred):
            I, M = runwrite(ctx, P, i, t, un, lambda rule, ok, key, msg, where: ctx.ob(ok, rule, key, msg, where))
            if I: wr[t] = M; ctx.ob(True, 'entry point', l)
    for rows, un in ((structs(P), False), (unions(P), True)):
        for l, i, t in rows:
            I, M = runread(ctx, P, i, t, un, only(ctx, ('member ids', 'member id', 'member', 'chain')))
            if not I: continue
            ctx.ob(True, 'entry point', l)
            W = wr.get(t); nm = tshort(P, t)
            if W is None: ctx.undecided(nm, 'this type has no encoder'); continue
            for j, (n, mt) in enumerate(M.mem):
                a, b = M.ids.get(j, set()), W.ids.get(j, set())
                ctx.ob(len(b) == 1 and a == b, 'same id', '%s:%s' % (nm, n), 'member %s is written under %s and read under %s' % (n, sorted(b), sorted(a)), i.name)
    membersout(ctx, P)
    for x in P.inherent:
        for n, k in x['new']:
            inst = P.insts[k]; t = x['ty']
            if not isstruct(P, t): continue
            I = ctx.run(P, inst, hook=None)
            if not I: continue
            ok = len(I.exits) > 0
            for st, v in I.exits:
                bad = [j for j in range(inst.argc) if not sameval(I, st, I.args0[j], I.sub(st, v, ('f', j)))]
                ctx.ob(not bad and inst.argc == len(members(P, t)), 'constructor', tshort(P, t), 'constructor arguments %s do not end in the members of the same position' % bad, inst.name)
            ctx.ob(ok, 'constructor', tshort(P, t), 'the constructor does not return', inst.name)

# ---------------------------------------------------------------- the Parquet IDL
import re, os
def parse_idl(text):
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    text = re.sub(r'(//|#)[^\n]*', '', text)
    out = {}
    for kind, name, body in re.findall(r'\b(struct|union|enum)\s+(\w+)\s*\{([^{}]*)\}', text):
        if kind == 'enum':
            out[name] = ('enum', [(n, int(v)) for n, v in re.findall(r'(\w+)\s*=\s*(-?\d+)', body)])
        else:
            out[name] = (kind, [(int(i), req or '', re.sub(r'\s', '', ty), n) for i, req, ty, n in re.findall(r'(\d+)\s*:\s*(?:(required|optional)\s+)?((?:list|set)\s*<\s*\w+\s*>|\w+)\s+(\w+)', body)])
    return out
BASE = {'bool': 'bool', 'byte': 'i8', 'i8': 'i8', 'i16': 'i16', 'i32': 'i32', 'i64': 'i64', 'double': 'f64', 'string': 'std::string::String', 'binary': 'std::vec::Vec<u8>'}
def idltype(P, t, ty):
    """does the Rust type t carry the IDL type ty"""
    t = proto.inner(P, t); T = P.types[t]
    m = re.match(r'(?:list|set)<(\w+)>$', ty)
    if m:
        if T['k'] == 'adt' and T['name'].endswith('EncodingSet'): return m.group(1) == 'Encoding'
        return T['k'] == 'adt' and T['name'].endswith('vec::Vec') and T['s'] != 'std::vec::Vec<u8>' and idltype(P, T['args'][0], m.group(1))
    if ty in BASE: return T['s'] == BASE[ty]
    return T['k'] == 'adt' and T['name'] == 'compact_thrift_parquet::format::' + ty

def shipped_idl():
    """the definitions of the IDL in the repository and of the later format additions"""
    idl = parse_idl(open(os.path.join(fw.REPO, 'generator/src/test/resources/parquet.thrift')).read())
    for n, (kind, body) in parse_idl(open(os.path.join(fw.HERE, 'ct', 'parquet_additions.thrift')).read()).items():
        if n not in idl: idl[n] = (kind, body)
        elif kind != 'enum':
            have = {x[0] for x in idl[n][1]} | {x[3] for x in idl[n][1]}
            idl[n] = (kind, idl[n][1] + [x for x in body if x[0] not in have and x[3] not in have])
    return idl
@check('C16', 'proof', 'the names, ids, wire types and required/optional status extracted from the type-checked program and the decoders/encoders (C15) of every bundled Parquet type are compared with the IDL shipped in the repository, both ways; enum constants are compared by value',
       'extraction from the type-checked program and comparison with the IDL',
       'Exhaustive over all definitions.', floors={'definition': 50, 'field': 150, 'enum constant': 50})
def c16(ctx):
    P = ctx.lib
    idl = shipped_idl()
    # the two fields the bundled definitions document as left out
    OMITTED = {('ColumnMetaData', 'path_in_schema'), ('ColumnMetaData', 'index_page_offset')}
    rd = {}; kinds = {}
    silent = lambda *a: None
    for rows, un in ((structs(P), False), (unions(P), True)):
        for l, i, t in rows:
            n = P.types[t]['name']
            if not n.startswith('compact_thrift_parquet::format::'): continue
            I, M = runread(ctx, P, i, t, un, silent)
            if I: rd[n.split('::')[-1]] = (t, M, 'union' if un else 'struct', i)
    wrt = {}
    for pred, un in ((isstruct, False), (isunion, True)):
        for l, i, t in writers(P, pred):
            n = P.types[t]['name']
            if n.startswith('compact_thrift_parquet::format::'):
                I, M = runwrite(ctx, P, i, t, un, silent)
                if I: wrt[t] = M
    enums = {x['self'].split('::')[-1]: x for x in P.inherent if x['self'].startswith('compact_thrift_parquet::format::')}
    for name, (kind, body) in sorted(idl.items()):
        if kind == 'enum':
            x = enums.get(name)
            if not ctx.ob(x is not None and proto.wcode(P, x['ty']) == (5,), 'definition', name, 'enum %s is missing' % name): continue
            have = {c: (v - (1 << 32) if v >> 31 else v) for c, v in x['consts']}
            for c, v in body: ctx.ob(have.get(c) == v, 'enum constant', '%s:%s' % (name, c), '%s::%s is %s, the IDL says %d' % (name, c, have.get(c), v))
            ex = set(have) - {c for c, v in body}
            ctx.ob(not ex, 'enum constant', name, 'constants that are not in the IDL: %s' % sorted(ex))
            continue
        r = rd.get(name)
        if not ctx.ob(r is not None and r[2] == kind, 'definition', name, '%s %s is missing or of another kind' % (kind, name)): continue
        t, M, _, inst = r
        W = wrt.get(t)
        mem = {n[2:] if n.startswith('r#') else n: (j, mt) for j, (n, mt) in enumerate(M.mem)}
        used = set()
        for fid, req, ty, fn in body:
            key = '%s.%s' % (name, fn)
            j, mt = mem.get(fn, mem.get(fn + '_', (None, None)))
            if j is None and (name, fn) in OMITTED: continue
            if not ctx.ob(j is not None, 'field', key, 'field %s is missing' % key, inst.name): continue
            used.add(j)
            ctx.ob(M.ids.get(j) == {fid}, 'field', key, 'field %s is read under id %s, the IDL says %d' % (key, sorted(M.ids.get(j, ())), fid), inst.name)
            ctx.ob(W is not None and W.ids.get(j) == {fid}, 'field', key, 'field %s is written under id %s, the IDL says %d' % (key, sorted(W.ids.get(j, ())) if W else None, fid), inst.name)
            ctx.ob(idltype(P, mt, ty), 'field', key, 'field %s has type %s, the IDL says %s' % (key, P.types[mt]['s'], ty), inst.name)
            if kind == 'struct': ctx.ob(isopt(P, mt) == (req == 'optional'), 'field', key, 'field %s is %s, the IDL says %s' % (key, 'optional' if isopt(P, mt) else 'required', req), inst.name)
        extra = [M.mem[j][0] for j in range(len(M.mem)) if j not in used]
        ctx.ob(not extra, 'field', name, 'fields that are not in the IDL: %s' % extra, inst.name)
    ex = (set(rd) | set(enums)) - set(idl)
    ctx.ob(not ex, 'definition', 'extra', 'definitions that are not in the IDL: %s' % sorted(ex))
    ctx.sample('%d definitions in the IDL' % len(idl))
