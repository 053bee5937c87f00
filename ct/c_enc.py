"""C22: the set of encodings."""
import fw, proto, models, interp
from fw import *
from dom import *
from checks import check
from c_wire import bitsof, canbe, empty, instances_of
from c_coll import ilin, GN, GB, GK, MAXE
from c_struct import shipped_idl

GV = ('g', 'value')
def setint(I, st, v):
    """the integer that represents the set (a struct with one integer member)"""
    P = I.P
    for _ in range(4):
        if v[0] == 'i': return v
        if v[0] == 'top' and v[1] is not None: v = I.force(st, v)
        if v[0] == 'i': return v
        if v[0] != 'agg' and not (v[0] == 'top' and P.types[v[1]]['k'] == 'adt'): break
        fs = P.fields(v[1])
        if len(fs) != 1: break
        v = I.sub(st, v, ('f', 0))
    raise Undecided('the set is not represented by one integer')
def mask(I, st):
    a = I.args0[0]
    return setint(I, st, I.read(st, a[1], a[2]))

class Dec:
    """member k of the set is set exactly if k was read"""
    def __init__(s, ctx, lab, k, known): s.ctx = ctx; s.lab = lab; s.k = k; s.known = known; s.w = None; s.out = set()
    def ob(s, I, st, rule, ok, msg):
        if not I.quiet: s.ctx.ob(ok, rule, s.lab, msg + ('' if ok else '; events %s' % tracestr(st)), I.where(st).inst.name)
    def want(s, I, st, kind, m, T, args, okv):
        if kind != 'in' or m not in ('read_i32', 'read_i16', 'read_i64'): return None
        if st.mon.get('seen') or not I.P.types: return None
        d = laddc(okv[1], -s.k)
        a = st.copy(); b = st; r = []
        if a.F.assume_eq(d): a.mon['seen'] = 1; r.append((a, okv))
        if b.F.assume_ne(d): r.append((b, okv))
        return r
    def event(s, I, st, name, outcome, args, ret, extra):
        if not isinstance(name, tuple): return
        if outcome != 'ok': st.mon['failed'] = 1; return
        s.last(I, st)
        if name == ('in', 'read_byte'): st.mem[GB] = ret
        elif name == ('in', 'read_len'): st.mem[GN] = ret
        elif name[0] == 'in' and ret is not None and ret[0] == 'i':
            st.mem[GV] = ret; st.mem[GK] = ('i', st.F.norm(laddc(st.mem[GK][1], 1)), 64, False)
            if not st.mon.get('typed'):
                x = bitsof(st.F, st.mem[GB][1], 8) if GB in st.mem else None
                s.ob(I, st, 'element type', x is not None and x[:4] == [1, 0, 1, 0], 'values are read although the element type is not known to be i32')
                st.mon['typed'] = 1
    def last(s, I, st):
        """the value read before is accepted now"""
        v = st.mem.pop(GV, None)
        if v is None: return
        lo, hi = st.F.rng(st.F.norm(v[1]))
        s.ob(I, st, 'representable', st.F.prove_ge(v[1]) and st.F.prove_ge(laddc(lneg(v[1]), s.w - 1)), 'a value between %s and %s is accepted, the set has the members 0 to %d' % (lo, hi, s.w - 1))
    def athead(s, I, st, back): s.last(I, st)
    def n(s, st):
        n = ilin(st.mem.get(GN))
        if n is None and GB in st.mem: n = st.F.from_bits(bitsof(st.F, st.mem[GB][1], 8)[4:], 0)
        return n
    def exit(s, I, st, val):
        if I.quiet: return
        F = st.F; ok = proto.isok(I, val)
        if ok is None: return s.ob(I, st, 'recorded', False, 'unknown result')
        if ok:
            s.last(I, st)
            n = s.n(st); k = st.mem[GK][1]
            s.ob(I, st, 'count', n is not None and F.prove_eq(k, n), 'success after %s values, the header says %s' % (lstr(F.norm(k)), lstr(F.norm(n)) if n else '?'))
            v = mask(I, st); b = bitsof(F, v[1], v[2])[s.k]
            seen = st.mon.get('seen', 0)
            s.ob(I, st, 'recorded', b == seen, 'encoding %d is %s although it was %s' % (s.k, 'in the set' if b == 1 else 'not in the set' if b == 0 else 'possibly %s the set' % ('in' if not seen else 'not in'), 'listed' if seen else 'not listed'))
            s.out.add(seen)
        elif not st.mon.get('failed'):
            v = st.mem.get(GV); n = s.n(st); x = bitsof(F, st.mem[GB][1], 8) if GB in st.mem else None
            bad = [c for c in s.known if not F.prove_ne(laddc(v[1], -c))] if v is not None else None
            good = (bad == []) or (v is None and (x is not None and not canbe(F, x[:4], 5) or n is not None and F.prove_ge(laddc(n, -MAXE - 1))))
            s.ob(I, st, 'accepted', good, 'the list may be refused with %s although %s' % (proto.errname(I, st, val), 'the value may be one of the encodings %s' % bad if bad else 'its header is valid'))

class Enc:
    """every member is emitted once, nothing else is"""
    def __init__(s, ctx, lab, k, header, w, member): s.ctx = ctx; s.lab = lab; s.k = k; s.header = header; s.w = w; s.member = member; s.forms = set()
    ob = Dec.ob
    def want(s, I, st, kind, m, T, args, okv):
        if kind != 'out' or m not in ('write_i32', 'write_i16', 'write_i64') or args[1][0] != 'i': return None
        d = laddc(args[1][1], -s.k)
        a = st.copy(); b = st; r = []
        if a.F.assume_eq(d) and not a.F.dead: a.mon['n'] = min(a.mon.get('n', 0) + 1, 2); r.append((a, okv))
        if b.F.assume_ne(d) and not b.F.dead: r.append((b, okv))
        return r
    def event(s, I, st, name, outcome, args, ret, extra):
        if not isinstance(name, tuple): return
        if outcome != 'ok': st.mon['failed'] = 1; return
        F = st.F; h = st.mon.get('h', 'start' if s.header else 'elems')
        v = mask(I, st); total = models.bitsum(F, bitsof(F, v[1], v[2]))
        if name == ('out', 'write_byte') and h == 'start':
            b = args[1][1]; x = bitsof(F, b, 8)
            s.ob(I, st, 'header type', x[:4] == [1, 0, 1, 0], 'the element type in the header is not i32')
            if x[4:] == [1, 1, 1, 1]: st.mon['h'] = 'long'; return
            ok = F.prove_ge(laddc(lneg(total), 14)) and (F.prove_eq(b, laddc(lscale(total, 16), 5)) or x[4:] == bitsof(F, total, 4))
            s.ob(I, st, 'short header', ok, 'the count in the short header is not the number of members')
            st.mon['h'] = 'elems'; s.forms.add('short'); return
        if name == ('out', 'write_len') and h == 'long':
            l = ilin(args[1])
            s.ob(I, st, 'long header', l is not None and F.prove_eq(l, total), 'the count in the long header is not the number of members')
            st.mon['h'] = 'elems'; s.forms.add('long'); return
        if name[0] == 'out' and h == 'elems' and len(args) > 1 and args[1] is not None and args[1][0] == 'i' and name[1] == 'write_i32':
            lo, hi = F.rng(F.norm(args[1][1]))
            s.ob(I, st, 'member', F.prove_ge(args[1][1]) and F.prove_ge(laddc(lneg(args[1][1]), s.w - 1)), 'a value between %s and %s is listed, members are 0 to %d' % (lo, hi, s.w - 1)); return
        s.ob(I, st, 'other event', False, 'unexpected operation %s in state %s' % (name, h))
    def exit(s, I, st, val):
        if I.quiet: return
        if proto.isok(I, val) is False:
            s.ob(I, st, 'written', bool(st.mon.get('failed')), 'the set may be refused'); return
        n = st.mon.get('n', 0)
        s.ob(I, st, 'listed', n == s.member and st.mon.get('h', 'elems') == 'elems', 'encoding %d is %s the set and listed %s times' % (s.k, 'in' if s.member else 'not in', n))

@check('C22', 'proof', 'for each of the 32 possible members separately: the decoder is run with the members read as events split on whether the value is that member, and at success the corresponding bit is entailed to be the monitor state, the number of values read equals the header, refusals entail that the last value is no encoding of the format; len, is_empty, iteration and writing are compared with the bits of the representation the same way',
       'abstract interpretation of MIR, bit level, complete case split over the members with loop invariants partitioned by the monitor state',
       'Sound for all lists and sets.',
       floors={'recorded': 64, 'accepted': 32, 'representable': 32, 'listed': 100, 'count': 32, 'short header': 32, 'long header': 32, 'length': 1, 'empty': 1})
def c22(ctx):
    P = ctx.lib; R = Roots(P)
    known = [v for _, v in shipped_idl()['Encoding'][1]]
    ctx.ob(len(known) >= 9, 'encodings', 'Encoding', 'the encodings of the format are not found')
    width = []
    def lens(I, st, val):
        v = mask(I, st); width.append(v[2])
        return v, bitsof(st.F, v[1], v[2])
    class Len:
        def event(s, *a): pass
        def exit(s, I, st, val):
            v, b = lens(I, st, val)
            ctx.ob(val[0] == 'i' and st.F.prove_eq(val[1], models.bitsum(st.F, b)), 'length', 'len', 'the length is not the number of members', I.where(st).inst.name)
    class Emp:
        def event(s, *a): pass
        def exit(s, I, st, val):
            v, b = lens(I, st, val); ok = val[0] == 'b'
            if ok:
                for x in (0, 1):
                    G = st.F.copy()
                    if not G.assume_bit(G.rb(val[1]), x) or G.dead: continue
                    ok = ok and (G.prove_eq(v[1]) if x else G.prove_ne(v[1]))
            ctx.ob(ok, 'empty', 'is_empty', 'the set may be called empty although it has members or the reverse', I.where(st).inst.name)
    proto._memo.clear()
    ctx.run(P, R.fn['encset_len'], hook=proto.Cut('Q'), monitors=[Len()])
    ctx.run(P, R.fn['encset_is_empty'], hook=proto.Cut('Q'), monitors=[Emp()])
    if not width: return ctx.undecided('representation', 'the representation of the set is not found')
    decoders(ctx, width[0], known)
    encoders(ctx, width[0], [('iter', R.fn['encset_iter_all'], False)])

def knownencs(): return [v for _, v in shipped_idl()['Encoding'][1]]
def repwidth(P):
    """width of the integer that represents the set"""
    for l, i, t in instances_of(P, 'write_thrift', 'out_abs'):
        if P.types[t]['k'] == 'adt' and P.types[t]['name'].endswith('::EncodingSet'):
            for _ in range(4):
                T = P.types[t]
                if T['k'] in ('int', 'uint'): return T.get('bits')
                fs = P.fields(t) if T['k'] == 'adt' else []
                if len(fs) != 1: return None
                t = fs[0]
def sets(P, meth, marker): return [(l, i) for l, i, t in instances_of(P, meth, marker) if P.types[t]['k'] == 'adt' and P.types[t]['name'].endswith('::EncodingSet')]
def run(ctx, lab, inst, M, before0):
    proto._memo.clear()
    def before(I, st, a):
        I.witconst = M.k; st.mem[('g', 'wit.k')] = ('i', lc(M.k), 64, False)
        before0(I, st, a)
    cut = proto.Cut('Q', keep=[inst.id]); cut.want = M.want
    return ctx.run(ctx.lib, inst, hook=cut, monitors=[M], before=before)
def decoders(ctx, w, known, ks=None):
    """the decoder against every member"""
    for l, i in sets(ctx.lib, 'fill_thrift', 'in_abs'):
        def one(k):
            M = Dec(ctx, l, k, known); M.w = w
            run(ctx, l, i, M, lambda I, st, a: st.mem.__setitem__(GK, ('i', ZERO, 64, False)))
            return M.out
        out = set()
        for r in ctx.par(range(w) if ks is None else ks, one): out |= r or set()
        ctx.ob(out == {0, 1}, 'recorded', l + ':both', 'no successful decoding in which encodings are listed and not listed', i.name)
def encoders(ctx, w, extra=()):
    """the encoder against every member, present and absent"""
    for l, i, hd in [(l, i, True) for l, i in sets(ctx.lib, 'write_thrift', 'out_abs')] + list(extra):
        def one(x):
            k, m = x
            M = Enc(ctx, l, k, hd, w, m)
            def before(I, st, a):
                I.args0 = a
                v = mask(I, st); b = bitsof(st.F, v[1], v[2])[k]
                if not st.F.assume_bit(b, m): raise Undecided('the set cannot be split')
            run(ctx, l, i, M, before)
            return M.forms
        forms = set()
        for r in ctx.par([(k, m) for k in range(w) for m in (0, 1)], one): forms |= r or set()
        if hd: ctx.ob(forms == {'short', 'long'}, 'forms', l, 'the header forms %s are used' % sorted(forms), i.name)
