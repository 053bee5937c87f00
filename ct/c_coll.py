"""Checks of collections and of the size limits of the writer."""
import fw, proto, models, interp
from fw import *
from dom import *
from checks import check
from c_struct import tshort, isopt, sameval
from c_wire import bitsof, canbe, instances_of

def isvec(P, t):
    T = P.types[t]
    return T['k'] == 'adt' and T['name'].split('::')[-1] == 'Vec' and proto.wcode(P, t) == (9,)
def elemof(P, t): return P.types[t]['args'][0]
def ilin(v): return v[1] if v is not None and v[0] == 'i' else None
GK = ('g', 'k'); GN = ('g', 'n'); GB = ('g', 'hb')

def fromarg(v, k=0):
    """does a value contain data that was in argument k"""
    if isinstance(v, tuple):
        if v[:1] == ('arg',) and len(v) > 1 and v[1] == k: return True
        return any(fromarg(x, k) for x in v)
    return False
def elemptr(I, st, v):
    """(object, path, index) of a pointer to a list element"""
    if v[0] == 'p' and v[2] and v[2][-1][0] == 'i': return v[1], v[2][:-1], v[2][-1][1]
    if v[0] == 'ep': return v[1], v[2], v[3]
    return None
class Coll:
    def __init__(s, ctx, P, t, lab, where): s.ctx = ctx; s.P = P; s.t = t; s.lab = lab; s.where = where; s.et = elemof(P, t); s.codes = proto.wcode(P, s.et) or (); s.forms = set(); s.lists = set()
    def ob(s, I, st, rule, ok, msg):
        if I.quiet: return ok
        return s.ctx.ob(ok, rule, s.lab, msg + ('' if ok else '; events %s' % tracestr(st)), I.where(st).inst.name)
    def vec(s, I, st):
        a = I.args0[0]
        return I.read(st, a[1], a[2])
    def count(s, I, st): return ilin(st.mem.get(GK)) if GK in st.mem else ZERO
    def step(s, I, st, k): st.mem[GK] = ('i', st.F.norm(laddc(k, 1)), 64, False)

class WColl(Coll):
    """header with type and exact count, then every element in order"""
    def event(s, I, st, name, outcome, args, ret, extra):
        if not isinstance(name, tuple): return
        h = st.mon.get('h', 'start')
        if outcome != 'ok': st.mon['h'] = 'failed'; return
        F = st.F; v = s.vec(I, st)
        n = v[2] if v[0] == 'vec' else None
        if name == ('out', 'write_byte') and h == 'start':
            b = args[1][1]; x = bitsof(F, b, 8)
            bad = [c for c in range(16) if c not in s.codes and canbe(F, x[:4], c)]
            s.ob(I, st, 'element type', not bad, 'the element type in the header may be %s, the type codes are %s' % (bad, s.codes))
            if x[4:] == [1, 1, 1, 1]: st.mon['h'] = 'long'; return
            ok = n is not None and F.prove_ge(laddc(lneg(n), 14)) and (x[4:] == bitsof(F, n, 4) or F.prove_eq(b, ladd(lscale(n, 16), F.from_bits(x[:4], 0))))
            s.ob(I, st, 'short header', ok, 'the count in the short header is not the number of elements')
            st.mon['h'] = 'elems'; s.forms.add('short'); return
        if name == ('out', 'write_len') and h == 'long':
            l = ilin(args[1])
            s.ob(I, st, 'long header', n is not None and l is not None and F.prove_eq(l, n), 'the count %s in the long header is not the number of elements' % (lstr(F.norm(l)) if l else '?'))
            s.ob(I, st, 'long header', n is not None and F.prove_ge(laddc(n, -15)), 'the long header is used for fewer than 15 elements')
            st.mon['h'] = 'elems'; s.forms.add('long'); return
        if name[0] == 'wval' and h == 'elems':
            e = elemptr(I, st, args[0]); k = s.count(I, st)
            ok = e is not None and v[0] == 'vec' and e[0] == v[1] and F.prove_eq(e[2], k)
            s.ob(I, st, 'element', ok, 'the element written is not the next element of the list: %s' % (args[0],))
            s.step(I, st, k); return
        s.ob(I, st, 'other event', False, 'unexpected operation %s in state %s' % (name, h))
    def exit(s, I, st, val):
        if I.quiet: return
        if proto.isok(I, val) is False: return
        v = s.vec(I, st); k = s.count(I, st)
        s.ob(I, st, 'all written', st.mon.get('h') == 'elems' and v[0] == 'vec' and st.F.prove_eq(k, v[2]), 'success after %s elements (state %s)' % (lstr(st.F.norm(k)), st.mon.get('h')))

def hastop(v):
    return isinstance(v, tuple) and (v[:1] == ('top',) or any(hastop(x) for x in v))
class RColl(Coll):
    """the count of the header elements are decoded into new elements of the emptied list,
    each in place or in a local that is then appended"""
    def pushed(s, I, st, v, val):
        if not st.mon.get('pend'): return
        s.ob(I, st, 'element', st.F.prove_eq(v[2], s.count(I, st)) and sameval(I, st, val, st.mem[('g', 'pendv')]), 'the element appended is not the one that was decoded, or not the next element of the list')
        s.lists.add(v[1]); del st.mon['pend']; del st.mem[('g', 'pendv')]
        s.step(I, st, s.count(I, st))
    def event(s, I, st, name, outcome, args, ret, extra):
        if not isinstance(name, tuple): return
        h = st.mon.get('h', 'start')
        if outcome != 'ok': st.mon['h'] = 'failed'; return
        F = st.F
        if name == ('in', 'read_byte') and h == 'start':
            st.mem[GB] = ret; st.mon['h'] = 'byte'; return
        if name == ('in', 'read_len') and h == 'byte':
            x = bitsof(F, st.mem[GB][1], 8)
            s.ob(I, st, 'long header', x[4:] == [1, 1, 1, 1], 'a count is read although the header may contain it')
            st.mem[GN] = ret; st.mon['h'] = 'elems'; s.forms.add('long'); return
        if name[0] == 'fill' and h in ('byte', 'elems'):
            s.short(I, st, h)
            k = s.count(I, st); e = elemptr(I, st, args[0]); v = s.vec(I, st)
            if e is None and args[0][0] == 'p' and not st.mon.get('pend') and v[0] == 'vec' and args[0][1] not in (v[1], I.args0[0][1]):
                s.ob(I, st, 'bound', F.prove_ge(laddc(lsub(st.mem[GN][1], k), -1)), 'more elements are decoded than the header says')
                s.ob(I, st, 'emptied', not hastop(I.lastfill), 'the element decoded into is not a new element')
                st.mon['pend'] = 1; st.mem[('g', 'pendv')] = I.read(st, args[0][1], args[0][2]); return
            ok = e is not None and v[0] == 'vec' and e[0] == v[1] and F.prove_eq(e[2], k)
            if ok: s.lists.add(v[1])
            s.ob(I, st, 'element', ok, 'the element decoded is not the next element of the list: %s' % (args[0],))
            s.ob(I, st, 'bound', F.prove_ge(laddc(lsub(st.mem[GN][1], k), -1)), 'more elements are decoded than the header says')
            s.ob(I, st, 'emptied', not fromarg(I.lastfill), 'the element decoded into still holds an element of the list before decoding')
            s.step(I, st, k); return
        s.ob(I, st, 'other event', False, 'unexpected operation %s in state %s' % (name, h))
    def short(s, I, st, h):
        if h != 'byte': return
        F = st.F
        x = bitsof(F, st.mem[GB][1], 8)
        s.ob(I, st, 'short header', not canbe(F, x[4:], 15), 'the count of a long header is not read')
        st.mem[GN] = ('i', F.from_bits(x[4:], 0), 64, False); st.mon['h'] = 'elems'; s.forms.add('short')
    def exit(s, I, st, val):
        if I.quiet or proto.isok(I, val) is False: return
        h = st.mon.get('h')
        s.short(I, st, h)
        v = s.vec(I, st); k = s.count(I, st); n = ilin(st.mem.get(GN)); F = st.F
        s.ob(I, st, 'element', not st.mon.get('pend'), 'a decoded element is not appended')
        s.ob(I, st, 'all decoded', h in ('byte', 'elems') and n is not None and F.prove_eq(k, n), 'success after %s elements, the header says %s' % (lstr(F.norm(k)), lstr(F.norm(n)) if n else '?'))
        s.ob(I, st, 'all decoded', v[0] == 'vec' and F.prove_eq(v[2], k) and (v[1] in s.lists or F.prove_eq(k, ZERO)), 'the list does not hold exactly the decoded elements')

@check('C13', 'proof', 'collection automaton run in product with the abstract states of every list encoder and decoder: header byte with the element type and the exact count (compared bit by bit) or 0xF and the count, then exactly that many elements, the k-th operation on the k-th element (ghost counter equal to the list position by linear invariants), each decoded into a default element of the emptied list',
       'typestate analysis with a ghost counter and linear loop invariants, bit-level header comparison',
       'Sound for all lists and all counts, for every element type in use.',
       floors={'entry point': 26, 'all written': 13, 'all decoded': 13, 'short header': 13, 'long header': 13})
def c13(ctx):
    P = ctx.lib
    for meth, marker, M0 in (('write_thrift', 'out_abs', WColl), ('fill_thrift', 'in_abs', RColl)):
        for l, i, t in instances_of(P, meth, marker):
            if not isvec(P, t): continue
            proto._memo.clear()
            M = M0(ctx, P, t, l, i.name)
            I = ctx.run(P, i, hook=proto.Cut('Q', keep=[i.id], elem=elemof(P, t)), monitors=[M], before=lambda I, st, a: st.mem.__setitem__(GK, ('i', ZERO, 64, False)))
            if not I: continue
            ctx.ob(True, 'entry point', l)
            ctx.ob(M.forms == {'short', 'long'}, 'forms', l, 'the header forms %s are used' % sorted(M.forms), i.name)
    import c_enc
    w = c_enc.repwidth(P)
    if w is None: return
    known = c_enc.knownencs()
    c_enc.decoders(ctx, w, known, known[:1] + known[-1:])
    c_enc.encoders(ctx, w)

# ---------------------------------------------------------------- limits
MAXE = 10_000_000; MAXB = 16 * 1024 * 1024
class Limit:
    """operations only with the size at most the limit, own refusals only above it"""
    def __init__(s, ctx, lab, limit, size): s.ctx = ctx; s.lab = lab; s.limit = limit; s.size = size
    def event(s, I, st, name, outcome, args, ret, extra):
        if isinstance(name, tuple) and name[0] == 'in' or name in ('from_utf8', 'read_exact'): 
            if outcome in ('err', 'Err'): st.mon['failed'] = 1
            return
        if not I.quiet:
            n = s.size(I, st)
            s.ctx.ob(n is not None and st.F.prove_ge(laddc(lneg(n), s.limit)), 'within the limit', s.lab, 'operation %s although the size %s may be above the limit; events %s' % (name, lstr(st.F.norm(n)) if n else '?', tracestr(st)), I.where(st).inst.name)
        if outcome in ('err', 'Err'): st.mon['failed'] = 1
    def exit(s, I, st, v):
        if I.quiet: return
        n = s.size(I, st)
        if proto.isok(I, v) is False and not st.mon.get('failed'):
            s.ctx.ob(n is not None and st.F.prove_ge(laddc(n, -s.limit - 1)), 'refused', s.lab, 'a value within the limit may be refused; events %s' % tracestr(st), st.frames[0].inst.name)
            st.mon['r'] = 1
        elif proto.isok(I, v): s.ctx.ob(n is not None and st.F.prove_ge(laddc(lneg(n), s.limit)), 'written', s.lab, 'a value above the limit may be written; events %s' % tracestr(st), st.frames[0].inst.name)
def argslice(k):
    def f(I, st):
        sl = models.as_slice(I, st, I.args0[k])
        return models.sllen(sl) if sl is not None else None
    return f
def argvec(I, st):
    a = I.args0[0]; v = I.read(st, a[1], a[2])
    return v[2] if v[0] == 'vec' else None

@check('C27', 'proof', 'at every output operation of the binary, string and list writers the abstract state entails that the size is within the limit, every refusal without a failed operation entails it is above it; the readers of binaries, strings and collection headers refuse a declared size only above the same limit (or, for a slice, when the bytes are missing)',
       'abstract interpretation of MIR: size guard entailed at every output operation and refusal',
       'Sound for all sizes; what the reader accepts is compared with the same limits.',
       floors={'entry point': 18, 'within the limit': 8, 'refused': 6, 'accepted': 4})
def c27(ctx):
    P = ctx.lib; R = Roots(P)
    def run(lab, inst, M, cut, **kw):
        proto._memo.clear()
        I = ctx.run(P, inst, hook=cut, monitors=[M] if M else [], **kw)
        if I: ctx.ob(True, 'entry point', lab)
        return I
    for n in ('w_binary', 'w_string'):
        run(n, R.fn[n], Limit(ctx, n, MAXB, argslice(1)), proto.Cut('P'))
    for l, i, t in instances_of(P, 'write_thrift', 'out_abs'):
        if isvec(P, t):
            I = run(l, i, Limit(ctx, l, MAXE, argvec), proto.Cut('Q', keep=[i.id], elem=elemof(P, t)))
    for n in ('binary', 'string'):
        for src in 'sr':
            for op in (('read_', 'skip_') if n == 'binary' else ('read_',)):
                lab = '%s_%s%s' % (src, op, n)
                class M:
                    def event(s, I, st, name, outcome, args, ret, extra):
                        if outcome in ('err', 'Err') or name == 'read' and args[0] == ZERO or name == 'read_to_end' and args[1] is not None and st.F.prove_ge(laddc(lsub(args[1], args[0]), -1)): st.mon['failed'] = 1
                        elif name == ('in', 'read_len'): st.mem[GN] = ret; st.mem[GB] = I.read(st, I.args0[0][1], ())
                    def exit(s, I, st, v):
                        if I.quiet or proto.isok(I, v) is not False or st.mon.get('failed'): return
                        n = ilin(st.mem.get(GN)); F = st.F
                        ok = n is not None and F.prove_ge(laddc(n, -MAXB - 1))
                        if not ok and src == 's' and n is not None and proto.errname(I, st, v) == 'IO':
                            sl = I.sub(st, st.mem[GB], ('f', 0)); sl = I.force(st, sl) if sl[0] == 'top' else sl
                            ok = sl[0] == 'sl' and F.prove_ge(laddc(lsub(n, models.sllen(sl)), -1))
                        ctx.ob(ok, 'accepted', lab, 'a binary within the limit may be refused with %s; events %s' % (proto.errname(I, st, v), tracestr(st)), st.frames[0].inst.name)
                cut = proto.Cut('Q')
                run(lab, R.fn[lab], M(), cut)
    for src in 'sra':
        lab = src + '_read_coll'
        class M:
            def event(s, I, st, name, outcome, args, ret, extra):
                if outcome in ('err', 'Err'): st.mon['failed'] = 1
                elif name == ('in', 'read_byte'): st.mem[GB] = ret
                elif name == ('in', 'read_len'): st.mem[GN] = ret
            def exit(s, I, st, v):
                if I.quiet: return
                F = st.F; lab2 = lab
                b = st.mem.get(GB); n = ilin(st.mem.get(GN))
                if b is None: return
                x = bitsof(F, b[1], 8)
                if n is None: n = F.from_bits(x[4:], 0)
                if proto.isok(I, v):
                    r = v[3][0]; c = I.sub(st, r, ('f', 0)); ty = I.sub(st, r, ('f', 1))
                    ctx.ob(F.prove_eq(c[1], n), 'count read', lab2, 'the count returned is not the one in the header; events %s' % tracestr(st), st.frames[0].inst.name)
                    ctx.ob(bitsof(F, ty[1], 8) == x[:4] + [0] * 4, 'count read', lab2, 'the element type returned is not the one in the header', st.frames[0].inst.name)
                    long = GN in st.mem
                    ctx.ob(x[4:] == [1] * 4 if long else not canbe(F, x[4:], 15), 'count read', lab2, 'the header form is not the one of the header byte; events %s' % tracestr(st), st.frames[0].inst.name)
                elif not st.mon.get('failed'): ctx.ob(F.prove_ge(laddc(n, -MAXE - 1)), 'accepted', lab2, 'a collection within the limit may be refused; events %s' % tracestr(st), st.frames[0].inst.name)
        run(lab, R.fn[lab], M(), proto.Cut('Q'))
