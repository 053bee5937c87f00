"""Checks of the wire format of scalars, headers and collections: bit-level comparison of what is written and read with the format."""
import fw, proto, models, interp
from fw import *
from dom import *
from checks import check
from c_struct import tshort, instances, oneof, elemtype, isopt, isstruct, isunion, sameval

BY = ('gb', 'bytes')
class Bytes:
    """records the bytes consumed from / produced to the environment on a path (paths are unrolled, nothing is joined)"""
    def __init__(s, ctx): s.ctx = ctx
    def add(s, I, st, xs):
        st.mem[BY] = st.mem.get(BY, ()) + tuple(xs)
    def event(s, I, st, name, outcome, args, ret, extra):
        if outcome not in ('ok', 'Ok'):
            if name not in ('from_utf8',):
                # an interrupted operation may be tried again; more than one interruption adds nothing
                st.mon['failed'] = st.mon.get('failures', 0) + 1; st.mon['failures'] = st.mon['failed']
                if st.mon['failed'] > 2: st.F.dead = True
            return
        if name in ('read', 'read_exact', 'write', 'write_all'): st.mon.pop('failed', None)
        if name == ('in', 'read_byte'): s.add(I, st, [ret[1]])
        elif name == 'read_exact':
            n, tag, sl = args
            c = st.F.const(n) if n is not None else None
            if c is None or sl is None or c > 64: s.add(I, st, [('run', n, tag)]); return
            s.add(I, st, [I.elemtag(st, I.P.u8(), tag, lc(i))[1] for i in range(c)])
        elif name == 'write_all':
            sl = args[0]; b = None
            if sl is not None:
                c = st.F.const(models.sllen(sl))
                if c is not None and c <= 64:
                    q = models.seqof(I, st, sl)
                    if q[0] == 'seq':
                        b = []
                        for i in range(c):
                            e = I.elem(st, q, laddc(sl[3], i))
                            b.append(e[1] if e[0] == 'i' else ('?',))
                else: b = [('run', models.content(I, st, sl))]
            s.add(I, st, b if b is not None else [('?',)])
        elif name == 'read' and args[0] == ZERO: st.mon['ended'] = 1
        elif name in ('write', 'read', 'read_to_end'): s.add(I, st, [('?',)])
        elif isinstance(name, tuple) and name[0] in ('in', 'out'): s.add(I, st, [(name[1],) + tuple(args[1:]) + ((ret,) if ret is not None else ())])
    def exit(s, I, st, val): pass

def slicebytes(I, st):
    """bytes consumed from the slice argument: list of lins, or None when the count is unknown"""
    a = I.args0[0]
    o0 = ('obj', a[1][1], 'val', a[1][3]) if a[0] == 'p' else None
    v = I.read(st, a[1], (('f', 0),))
    w = I.mk_top(I.P.types[I.P.strip(a)] if False else a[1][3], a[1][1]) if False else None
    return v
def remaining(I, st):
    """(object, start, end) of the slice held by a CompactThriftInputSlice argument"""
    a = I.args0[0]
    v = I.read(st, a[1], a[2] + (('f', 0),))
    return v if v[0] == 'sl' else None

def consumed(I, st, kind, start0):
    if kind != 's': return list(st.mem.get(BY, ()))
    v = remaining(I, st)
    if v is None or start0 is None or v[1] != start0[1]: return None
    d = st.F.const(lsub(v[3], start0[3]))
    if d is None or not st.F.prove_eq(v[4], start0[4]): return None
    q = models.seqof(I, st, start0)
    if q[0] != 'seq': return None
    return [I.elem(st, q, laddc(start0[3], i))[1] for i in range(d)]

def bitsof(F, l, n):
    b, e = F.bits(l)
    return [F.rb(b[i]) if i < len(b) else F.rb(e) for i in range(n)]
def zigzag(F, l, w):
    """bits of the zigzag form of a w bit signed integer"""
    v = bitsof(F, l, w); s = v[w - 1]
    return [F.rb(s)] + [F.rb(v[i] ^ s) for i in range(w - 1)]
def unzigzag(F, z, w):
    return [F.rb((z[i + 1] if i + 1 < w else 0) ^ z[0]) for i in range(w)]

def runbytes(ctx, P, inst, kind, unroll, hook=None, before=None, args=None):
    proto._memo.clear()
    box = {}
    def bf(I, st, a):
        if kind == 's': 
            v = I.read(st, a[0][1], a[0][2] + (('f', 0),))
            box['s'] = v
        if before: before(I, st, a)
    def setup(I):
        I.kill_loops = True
    I = ctx.run(P, inst, hook=hook or proto.Cut('P'), monitors=[Bytes(ctx)], setup=setup, before=bf, args=args, unroll=unroll)
    return I, box.get('s')

INTS = {'i16': (16, True), 'i32': (32, True), 'i64': (64, True), 'len': (64, False)}
def groups(w): return (w + 6) // 7

def nonzero(F, l):
    if F.prove_ne(l): return True
    G = F.copy()
    for b in bitsof(G, l, 8):
        if not G.assume_bit(b, 0) or G.dead: return True
    G.rng(G.norm(l))
    return G.dead or empty(G)
def canbe(F, bits, c):
    G = F.copy()
    for i, b in enumerate(bits):
        if not G.assume_bit(G.rb(b), c >> i & 1) or G.dead: return False
    return not empty(G)
def empty(G):
    for x in list(G.iv):
        lo, hi = G.symrng(x)
        if lo > hi: return True
    return False

def check_varint_bytes(ctx, F, B, z, rule, key, where):
    """B is the canonical varint of the bit list z"""
    k = len(B)
    why = None
    for i, b in enumerate(B):
        if isinstance(b[0], str): why = 'byte %d is not determined' % i; break
        x = bitsof(F, b, 8)
        lo, hi = F.rng(F.norm(b))
        if lo < 0 or hi > 255: why = 'byte %d out of range' % i; break
        want = [F.rb(z[7 * i + j]) if 7 * i + j < len(z) else 0 for j in range(7)] + [1 if i < k - 1 else 0]
        if x != want: why = 'byte %d of %d differs in the bits %s' % (i, k, [j for j in range(8) if x[j] != want[j]]); break
    if why is None:
        rest = [j for j in range(7 * k, len(z)) if F.rb(z[j]) != 0]
        if rest: why = 'bits %s of the value are not written' % rest
        elif k > 1 and not nonzero(F, B[-1]): why = 'the varint may end in an empty group'
    ctx.ob(why is None, rule, key, '%s' % why, where)

@check('C11', 'proof', 'the integer writers and readers are unrolled completely (10 groups) over symbolic bits; on every path each written byte is compared bit by bit with the varint of the zigzag (or plain) form of the argument, and each value read is compared bit by bit with the decoding of the bytes consumed; doubles and bytes are compared bit by bit',
       'abstract interpretation over a bit-level domain (exclusive-or normal form), complete unrolling',
       'Sound for every value and every canonical encoding, for all three kinds of source; encodings longer than the canonical maximum are outside the statement.',
       floors={'entry point': 15, 'value written': 15, 'value read': 20})
def c11(ctx):
    P = ctx.lib; R = Roots(P)
    for n, (w, sg) in INTS.items():
        i = R.fn['w_' + n]
        I, _ = runbytes(ctx, P, i, 'w', 11)
        ctx.ob(True, 'entry point', 'w_' + n)
        if I:
            ctx.ob(not I.collect.get('unroll_exhausted'), 'bounded', n, 'writing does not stop after %d bytes' % groups(w), i.name)
            ks = set()
            for st, v in I.exits:
                if proto.isok(I, v):
                    F = st.F; x = I.args0[1][1]
                    z = zigzag(F, x, w) if sg else bitsof(F, x, w)
                    B = st.mem.get(BY, ()); ks.add(len(B))
                    check_varint_bytes(ctx, F, B, z, 'value written', n, i.name)
                else: ctx.ob(bool(st.mon.get('failed')), 'refusal', n, 'a value is refused although no write failed; events %s' % tracestr(st), i.name)
            ctx.ob(ks == set(range(1, groups(w) + 1)), 'lengths', n, 'encodings have lengths %s' % sorted(ks), i.name)
        for src in 'sra':
            i = R.fn['%s_read_%s' % (src, n)]; m = groups(w); lab = '%s_read_%s' % (src, n)
            I, s0 = runbytes(ctx, P, i, src, m)
            ctx.ob(True, 'entry point', lab)
            if not I: continue
            ks = set()
            for st, v in I.exits:
                F = st.F
                B = consumed(I, st, src, s0)
                if proto.isok(I, v) is False:
                    if st.mon.get('failed') or st.mon.get('ended') or B is None: continue
                    if src == 's':
                        # running out of input
                        rem = remaining(I, st)
                        if rem is not None and F.prove_ge(lsub(rem[3], rem[4])): continue
                    if len(B) > m or not B: continue
                    if any(isinstance(b[0], str) for b in B): ctx.ob(False, 'refusal', lab, 'the bytes consumed are not determined; events %s' % tracestr(st), i.name); continue
                    G = F.copy(); ok = True
                    last = bitsof(G, B[-1], 8)
                    ok = G.assume_bit(last[7], 0)
                    if len(B) == m and ok:
                        for j in range(7):
                            if 7 * (m - 1) + j >= w and ok: ok = G.assume_bit(G.rb(last[j]), 0)
                    ctx.ob(not ok or G.dead, 'refusal', lab, 'a canonical encoding of %d bytes is refused; events %s' % (len(B), tracestr(st)), i.name)
                    continue
                why = None
                if B is None or any(isinstance(b[0], str) for b in B): why = 'the bytes consumed are not determined'
                elif len(B) > m: continue
                else:
                    ks.add(len(B)); z = []
                    for q, b in enumerate(B):
                        x = bitsof(F, b, 8); z += x[:7]
                        if x[7] != (1 if q < len(B) - 1 else 0): why = 'byte %d is not known to %s' % (q, 'continue' if q < len(B) - 1 else 'end the varint'); break
                    z = (z + [0] * w)[:w]
                    r = v[3][0]
                    got = bitsof(F, r[1], w)
                    want = unzigzag(F, z, w) if sg else [F.rb(b) for b in z]
                    if why is None and got != want: why = 'the value differs from its encoding (%d bytes) in the bits %s' % (len(B), [j for j in range(w) if got[j] != want[j]])
                ctx.ob(why is None, 'value read', lab, '%s; events %s' % (why, tracestr(st)), i.name)
            ctx.ob(ks == set(range(1, m + 1)), 'lengths', lab, 'encodings of lengths %s are accepted' % sorted(ks), i.name)
    # bytes and doubles
    for n, w in (('byte', 8), ('double', 64)):
        i = R.fn['w_' + n]
        I, _ = runbytes(ctx, P, i, 'w', 11)
        ctx.ob(True, 'entry point', 'w_' + n)
        for st, v in I.exits if I else []:
            if proto.isok(I, v):
                B = st.mem.get(BY, ()); F = st.F
                x = I.args0[1]
                bits = bitsof(F, x[1], 8) if n == 'byte' else bitsof(F, I.f64bits(x), 64)
                got = [y for b in B for y in bitsof(F, b, 8)] if not any(isinstance(b[0], str) for b in B) else None
                ctx.ob(got == bits, 'value written', n, 'the bytes written differ from the value', i.name)
            else: ctx.ob(bool(st.mon.get('failed')), 'refusal', n, 'a value is refused although no write failed', i.name)
        for src in 'sr':
            lab = '%s_read_%s' % (src, n); i = R.fn[lab]
            I, s0 = runbytes(ctx, P, i, src, 11)
            ctx.ob(True, 'entry point', lab)
            for st, v in I.exits if I else []:
                if not proto.isok(I, v): continue
                B = consumed(I, st, src, s0); F = st.F
                if B is None or any(isinstance(b[0], str) for b in B): ctx.ob(False, 'value read', lab, 'the bytes consumed are not determined', i.name); continue
                got = [y for b in B for y in bitsof(F, b, 8)]
                r = v[3][0]
                want = bitsof(F, r[1], 8) if n == 'byte' else bitsof(F, I.f64bits(r), 64)
                ctx.ob(got == want, 'value read', lab, 'the value differs from the %d bytes consumed' % len(B), i.name)

# ---------------------------------------------------------------- field headers
def instances_of(P, meth, marker):
    """[(label, inst, type)] of a trait method for every supported type, with the abstract input or output"""
    R = Roots(P)
    return [(l, i, t) for l, i, t, m in R.methods(meth) if l.endswith(marker)]

class Header:
    """the first output operations of a field are its header"""
    def __init__(s, ctx, P, t, lab, where):
        s.ctx = ctx; s.P = P; s.t = t; s.lab = lab; s.where = where; s.codes = proto.wcode(P, t) or (); s.forms = set()
    def ob(s, I, st, rule, ok, msg):
        if I.quiet: return ok
        return s.ctx.ob(ok, rule, s.lab, msg + ('' if ok else '; events %s' % tracestr(st)), s.where)
    def event(s, I, st, name, outcome, args, ret, extra):
        if not isinstance(name, tuple) or name[0] not in ('out', 'wval'): return
        h = st.mon.get('hd', 0)
        if h == 2 or h == 'failed': return
        if outcome != 'ok':
            st.mon['hd'] = 'failed'; return
        F = st.F; m = name[1]
        idl, la = I.args0[2][1], I.last0
        d = lsub(idl, la)
        if h == 0:
            if not s.ob(I, st, 'header first', m == 'write_byte' and name[0] == 'out', 'the field starts with %s instead of a header byte' % (name,)): st.mon['hd'] = 2; return
            b = args[1][1]
            x = bitsof(F, b, 8)
            code = F.from_bits(x[:4], 0)
            bad = [c for c in range(16) if c not in s.codes and canbe(F, x[:4], c)]
            s.ob(I, st, 'type nibble', not bad, 'the type nibble of the header may be %s, the type codes are %s' % (bad, s.codes))
            if all(z == 0 for z in x[4:]):
                st.mon['hd'] = 1; return
            st.mon['hd'] = 2
            ok = F.prove_ge(laddc(d, -1)) and F.prove_ge(laddc(lneg(d), 15))
            s.ob(I, st, 'short form', ok, 'the one byte form is used although the id may not be 1 to 15 above the previous one')
            if ok:
                y = bitsof(F, d, 4)
                s.ob(I, st, 'delta', x[4:] == y or F.prove_eq(b, ladd(lscale(d, 16), code)), 'the delta nibble is not the difference of the ids')
            s.forms.add('short')
        elif h == 1:
            st.mon['hd'] = 2
            ok = name == ('out', 'write_i16') and args[1][0] == 'i' and F.prove_eq(args[1][1], idl)
            s.ob(I, st, 'long form', ok, 'a header without a delta is followed by %s %s instead of the field id' % (m, lstr(F.norm(args[1][1])) if len(args) > 1 and args[1][0] == 'i' else ''))
            G = F.copy()
            short = G.assume_ge(laddc(d, -1)) and G.assume_ge(laddc(lneg(d), 15)) and not G.dead
            s.ob(I, st, 'long form', not short, 'the long form is used for ids 1 to 15 above the previous one')
            s.forms.add('long')
    def exit(s, I, st, v):
        if I.quiet: return
        h = st.mon.get('hd', 0)
        a = I.args0[3]; ob, pa, _ = I.deref(st, a); last = I.read(st, ob, pa)
        if proto.isok(I, v) is False: return
        if h == 0:
            o = I.read(st, I.args0[0][1], I.args0[0][2])
            none = isopt(s.P, s.t)
            if none:
                o = I.force(st, o) if o[0] == 'top' else o
                none = o[0] == 'en' and s.P.types[s.t]['variants'][o[2]]['name'] == 'None'
            s.ob(I, st, 'absent', none, 'a field is written without a header')
            s.ob(I, st, 'absent', last[0] == 'i' and st.F.prove_eq(last[1], I.last0), 'the previous field id changes although nothing is written')
            s.forms.add('none')
            return
        if s.ob(I, st, 'header complete', h == 2, 'success in the middle of a header'):
            s.ob(I, st, 'remembered', last[0] == 'i' and st.F.prove_eq(last[1], I.args0[2][1]), 'the remembered field id is %s, not the id written' % (lstr(st.F.norm(last[1])) if last[0] == 'i' else '?'))

@check('C12', 'proof', 'for every supported type the first output operations of a field are compared with the header rule over symbolic ids (short form only where the difference is proven to lie in 1..15, otherwise type code and absolute id), the remembered id is the id written; the header reader is unrolled over symbolic bytes and its result compared bit by bit with the byte(s) consumed',
       'abstract interpretation over linear and bit-level facts, header automaton, complete unrolling of the reader',
       'Sound for all ids and previous ids, all supported types and all three sources.',
       floors={'entry point': 60, 'short form': 30, 'long form': 30, 'header read': 3})
def c12(ctx):
    P = ctx.lib; R = Roots(P)
    for l, i, t in instances_of(P, 'write_thrift_field', 'out_abs'):
        proto._memo.clear()
        M = Header(ctx, P, t, l, i.name)
        def before(I, st, a):
            ob, pa, _ = I.deref(st, a[3])
            I.last0 = I.read(st, ob, pa)[1]
        I = ctx.run(P, i, hook=proto.Cut('Q', keep=[i.id]), monitors=[M], before=before)
        if not I: continue
        ctx.ob(True, 'entry point', l)
        want = {'short', 'long'} | ({'none'} if isopt(P, t) else set())
        ctx.ob(M.forms == want, 'forms', l, 'the header forms %s are reachable' % sorted(M.forms), i.name)
    # through a std writer the header must be the same bytes
    i = R.fn['w_field_i8']
    box = {}
    def before(I, st, a):
        ob, pa, _ = I.deref(st, a[3]); box['l'] = I.read(st, ob, pa)[1]
    I, _ = runbytes(ctx, P, i, 'w', 4, before=before)
    n = set()
    for st, v in I.exits if I else []:
        if not proto.isok(I, v): continue
        F = st.F; B = st.mem.get(BY, ()); idl = I.args0[2][1]; d = lsub(idl, box['l']); o1, p1, _ = I.deref(st, I.args0[1]); val = I.read(st, o1, p1); val = I.force(st, val) if val[0] == 'top' else val
        det = bool(B) and not any(isinstance(b[0], str) for b in B)
        if not ctx.ob(det, 'header bytes', 'writer', 'the bytes written are not determined', i.name): continue
        x = bitsof(F, B[0], 8)
        ctx.ob(x[:4] == [1, 1, 0, 0], 'header bytes', 'type', 'the type nibble of a byte field is not 3', i.name)
        ctx.ob(bitsof(F, B[-1], 8) == bitsof(F, val[1], 8), 'header bytes', 'value', 'the byte after the header is not the value', i.name)
        if len(B) == 2: ctx.ob(F.prove_ge(laddc(d, -1)) and F.prove_ge(laddc(lneg(d), 15)) and (x[4:] == bitsof(F, d, 4) or F.prove_eq(B[0], laddc(lscale(d, 16), 3))), 'header bytes', 'short', 'the short header is not the difference of the ids', i.name)
        else:
            ctx.ob(x[4:] == [0] * 4, 'header bytes', 'long', 'a long header has a delta', i.name)
            check_varint_bytes(ctx, F, B[1:-1], zigzag(F, idl, 16), 'header bytes', 'id', i.name)
        n.add(len(B))
    ctx.ob(n == {2, 3, 4, 5}, 'header bytes', 'lengths', 'fields of %s bytes are written' % sorted(n), i.name)
    for src in 'sra':
        lab = src + '_read_field_header'
        i = R.fn[lab]; box = {}
        def before(I, st, a):
            ob, pa, _ = I.deref(st, a[1]); box['l'] = I.read(st, ob, pa)[1]
        I, s0 = runbytes(ctx, P, i, src, 3, before=before)
        if not I: continue
        ctx.ob(True, 'entry point', lab)
        seen = set()
        for st, v in I.exits:
            F = st.F; B = consumed(I, st, src, s0); L0 = box['l']
            if proto.isok(I, v) is False:
                if st.mon.get('failed') or st.mon.get('ended'): continue
                if src == 's':
                    rem = remaining(I, st)
                    if rem is not None and F.prove_ge(lsub(rem[3], rem[4])): continue
                ok = B is not None and len(B) >= 1
                if ok:
                    x = bitsof(F, B[0], 8)
                    G = F.copy()
                    if len(B) == 1:
                        # refusing is right when the id does not fit or the type is missing
                        low, hi = G.from_bits(x[:4], 0), G.from_bits(x[4:], 0)
                        live = G.assume_ne(low) and G.assume_ge(laddc(lneg(ladd(L0, hi)), 32767)) and not G.dead
                        ok = not live
                    else: 
                        canon = len(B) <= 4 and G.assume_bit(bitsof(G, B[-1], 8)[7], 0)
                        if canon and len(B) == 4:
                            for j in range(2, 7): canon = canon and G.assume_bit(G.rb(bitsof(G, B[3], 8)[j]), 0)
                        ok = len(B) > 4 or not canon or G.dead
                ctx.ob(ok, 'refusal', lab, 'a valid header is refused with %s; events %s' % (proto.errname(I, st, v), tracestr(st)), i.name)
                continue
            if not ctx.ob(B is not None and len(B) >= 1 and not any(isinstance(b[0], str) for b in B), 'header read', lab, 'the bytes consumed are not determined; events %s' % tracestr(st), i.name): continue
            if len(B) > 4: continue
            ob, pa, _ = I.deref(st, I.args0[1]); last = I.read(st, ob, pa)
            x = bitsof(F, B[0], 8); r = v[3][0]
            got = bitsof(F, r[1], 8)
            zero = F.const(B[0]) == 0
            ctx.ob(got == x[:4] + [0] * 4, 'type read', lab, 'the type returned is not the low nibble of the header; events %s' % tracestr(st), i.name)
            if zero:
                ctx.ob(len(B) == 1, 'stop', lab, 'more bytes are read after a stop byte', i.name); seen.add('stop'); continue
            if len(B) == 1:
                hi = F.from_bits(x[4:], 0)
                ctx.ob(F.prove_ne(hi) and last[0] == 'i' and F.prove_eq(last[1], ladd(L0, hi)), 'header read', lab, 'the id of a short header is %s; events %s' % (lstr(F.norm(last[1])), tracestr(st)), i.name)
                seen.add('short')
            else:
                z = []; ok = x[4:] == [0] * 4
                for q, b in enumerate(B[1:]):
                    y = bitsof(F, b, 8); z += y[:7]
                    ok = ok and y[7] == (1 if q < len(B) - 2 else 0)
                z = (z + [0] * 16)[:16]
                ctx.ob(ok and last[0] == 'i' and bitsof(F, last[1], 16) == unzigzag(F, z, 16), 'header read', lab, 'the id of a long header is not the zigzag varint after it; events %s' % tracestr(st), i.name)
                seen.add('long%d' % len(B))
        ctx.ob(seen >= {'stop', 'short', 'long2', 'long3', 'long4'}, 'forms read', lab, 'the header forms %s are accepted' % sorted(seen), i.name)
