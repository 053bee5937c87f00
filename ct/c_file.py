"""C20, C21: the footer metadata and the page index of a file."""
import fw, proto, models, interp
from fw import *
from dom import *
from checks import check
from c_coll import ilin
from c_wire import bitsof, empty

GPOS, GDEL, GBUF = ('g', 'file.pos'), ('g', 'file.delta'), ('g', 'file.buf')
def g64(l): return ('i', l, 64, False)
class File:
    """position of an arbitrary file of length L; buffer o is filled so that o[i] = file[i + delta]"""
    def __init__(s, ctx, lab): s.ctx = ctx; s.lab = lab
    def before(s, I, st, a):
        s.L = lv(fresh('file.len', 64, False, 0, (1 << 63) - 1))
        st.mem[GPOS] = g64(lv(fresh('file.pos', 64, False, 0, (1 << 63) - 1)))
        st.mon['recs'] = ()
    def event(s, I, st, name, outcome, args, ret, extra):
        if outcome in ('err', 'Err'): st.mon['failed'] = 1; return
        F = st.F; pos = st.mem[GPOS][1]
        def to(l):
            F.assume_ge(l); st.mem[GPOS] = g64(F.norm(l))
            if ret is not None and ret[0] == 'i': F.assume_eq(lsub(ret[1], l))
        if name == 'seek':
            a = args[0]; k = I.P.types[a[1]]['variants'][a[2]]['name'] if a is not None and a[0] == 'en' else None
            d = ilin(a[3][0]) if k else None
            if d is None: st.mem[GPOS] = g64(lv(fresh('file.pos', 64, False))); return
            to(d if k == 'Start' else ladd(s.L if k == 'End' else pos, d))
        elif name == 'rewind': st.mem[GPOS] = g64(ZERO)
        elif name == 'stream_position': to(pos)
        elif name == 'seek_relative':
            d = ilin(args[0]) if args and args[0] is not None else None
            st.mem[GPOS] = g64(lv(fresh('file.pos', 64, False))) if d is None else st.mem[GPOS]
            if d is not None: to(ladd(pos, d))
        elif name in ('read_exact', 'read', 'read_to_end'):
            n, tag, sl = args
            if n is None: n = lv(fresh('file.n', 64, False))
            if name == 'read_exact':
                F.assume_ge(lsub(lsub(s.L, pos), n))
                if len(st.mon['recs']) < 6: st.mon['recs'] = st.mon['recs'] + ((tag, F.norm(pos), F.norm(n)),)
            if sl is not None and F.const(n) is None:
                d = F.norm(lsub(pos, sl[3]))
                if GDEL in st.mem and st.mem[GBUF][1] == sl[1] and not F.prove_eq(st.mem[GDEL][1], d): st.mon['mixed'] = 1
                st.mem[GDEL] = ('i', d, 64, True); st.mem[GBUF] = ('p', sl[1], ())
            elif name == 'read_to_end': st.mem[GDEL] = ('i', F.norm(pos), 64, True); st.mem[GBUF] = ('p', ('none',), ())
            st.mem[GPOS] = g64(F.norm(ladd(pos, n)))
    def byte(s, I, st, k):
        """the byte at file position k, if it was read"""
        for tag, pos, n in st.mon['recs']:
            d = st.F.const(lsub(k, pos))
            if d is not None and d >= 0 and st.F.prove_ge(laddc(n, -d - 1)): return I.elemtag(st, I.P.u8(), tag, lc(d))[1]
        return None
    def origin(s, I, st, v):
        """file position of the first byte of a buffer that holds only bytes of the file in order, or None"""
        q = I.read(st, v[1], ())
        if q[0] != 'seq' or q[4]: return None
        for tag, pos, n in st.mon['recs']:
            if q[3] == tag and st.F.prove_eq(lsub(n, v[2])): return pos
        if GDEL in st.mem and st.mem[GBUF][1] == v[1] and not st.mon.get('mixed'): return st.mem[GDEL][1]
        return None
    def alloc(s, I, st, what, n, et):
        if I.quiet: return
        F = st.F; c = F.const(F.norm(n)) if n is not None else None
        if n is None or c is not None and c <= 64: return
        ok = F.prove_ge(lsub(s.L, n))
        s.ctx.ob(ok, 'reserve', s.lab, 'memory for %s elements (%s) is reserved although the input is not known to be that long; events %s' % (lstr(F.norm(n)), what, tracestr(st)), I.where(st).inst.name)
    def exit(s, I, st, val): pass


from c_scan import collect, PANICKY
def contradiction(F):
    """a conjunction known to be false whose factors are all known to be true, or an empty range"""
    return F.dead or empty(F) or any(a in F.bit and F.rb(F.bit[a]) == 0 and F.rb(x) == 1 and F.rb(y) == 1 for a, (x, y) in list(ANDOPS.items()))
def nopanic(ctx, I, lab):
    collect(ctx, I, lab, ('panic',), 'panic site')
    for n in I.opaque: ctx.ob(not PANICKY.search(n), 'unmodelled callee', n, 'an unmodelled function that may panic is called from %s' % lab)

MAGIC = b'PAR1'
@check('C20', 'proof', 'with the file as a symbolic byte array of symbolic length and the position tracked through every seek and read: at every successful exit the bytes at length-4.. are known to be PAR1, the buffer is the file contents at length-8-n.. and n is the little-endian value of the bytes at length-8..; every reservation is entailed to be at most the length; no panic site is reachable',
       'abstract interpretation of MIR with a symbolic file (position, contents identities, bit-level length)',
       'Sound for all files within the trusted base (Seek and Read keep their contracts, the file does not change meanwhile).',
       debug=True, floors={'magic': 1, 'length': 1, 'contents': 1, 'reserve': 1, 'panic site': 1})
def c20(ctx):
    P = ctx.lib; R = Roots(P); inst = R.fn['metadata_chunk']; lab = 'get_metadata_chunk'
    class M(File):
        n = 0
        def exit(s, I, st, val):
            if I.quiet: return
            F = st.F; w = I.where(st).inst.name; ok = proto.isok(I, val)
            b = [s.byte(I, st, laddc(s.L, k - 8)) for k in range(8)]
            if ok is False:
                if st.mon.get('failed'): return
                # own refusals: the magic differs, or the declared length does not fit
                G = F.copy(); wrong = False
                for x, c in zip(b[4:], MAGIC):
                    if x is None: continue
                    if F.prove_ne(laddc(x, -c)) or not G.assume_bit(G.cond('eq', laddc(x, -c)), 1) or not G.assume_eq(laddc(x, -c)) or G.dead: wrong = True; break
                wrong = wrong or contradiction(G)
                long = None not in b[:4] and F.prove_ge(laddc(lsub(s.le(F, b), laddc(s.L, -8)), -1))
                short = F.prove_ge(laddc(lneg(s.L), 11))
                s.ctx.ob(wrong or long or short, 'refusal', lab, 'a file with a valid footer may be refused with %s; events %s' % (proto.errname(I, st, val), tracestr(st)), w)
                return
            s.n += 1
            v = val[3][0] if ok else ('?',)
            if ok is None or v[0] != 'vec': return s.ctx.ob(False, 'contents', lab, 'the result is not a known buffer', w)
            s.ctx.ob(all(x is not None and F.prove_eq(laddc(x, -c)) for x, c in zip(b[4:], MAGIC)), 'magic', lab, 'success although the last four bytes are not known to be the magic; events %s' % tracestr(st), w)
            good = None not in b[:4] and (F.prove_eq(lsub(s.le(F, b), v[2])) or bitsof(F, v[2], 64) == bitsof(F, s.le(F, b), 64))
            s.ctx.ob(good, 'length', lab, 'the buffer has %s bytes, not the little-endian length of the footer' % lstr(F.norm(v[2])), w)
            o = s.origin(I, st, v)
            s.ctx.ob(o is not None and F.prove_eq(lsub(ladd(o, v[2]), laddc(s.L, -8))), 'contents', lab, 'the buffer is not known to be the bytes in front of the footer (it starts at %s); events %s' % (lstr(F.norm(o)) if o else '?', tracestr(st)), w)
        def le(s, F, b):
            x = []
            for e in b[:4]: x += bitsof(F, e, 8)
            return F.from_bits(x, 0)
    proto._memo.clear()
    m = M(ctx, lab)
    I = ctx.run(P, inst, hook=proto.Cut('P'), monitors=[m], before=m.before)
    if I:
        nopanic(ctx, I, lab)
        ctx.ob(m.n > 0, 'success', lab, 'no successful exit')

# ---------------------------------------------------------------- page index
def field(P, t, name):
    for i, (n, ft) in enumerate(P.types[t]['variants'][0]['fields']):
        if n == name: return i, ft
    return None, None
def strip(P, t):
    while P.types[t]['k'] in ('ref', 'ptr'): t = P.types[t]['to']
    return t
FOUR = ('offset_index_offset', 'offset_index_length', 'column_index_offset', 'column_index_length')
class Witness:
    """an arbitrary column chunk (row group i, column j) that declares both indexes: a distinguished cell of the metadata"""
    def __init__(s, ctx, P, arg): s.ctx = ctx; s.P = P; s.arg = arg
    def before(s, I, st, a):
        P = s.P; a = a[s.arg]
        fm = strip(P, I.typeof(st, a[1], ()) if False else a[1][3])
        k, vt = field(P, fm, 'row_groups')
        if k is None: raise Undecided('FileMetaData has no row_groups')
        rows = I.read(st, a[1], a[2] + (('f', k),))
        rt = P.types[vt]['args'][0]
        c, ct = field(P, rt, 'columns'); cct = P.types[ct]['args'][0]
        F = st.F
        s.i = lv(fresh('wit.i', 64, False)); s.j = lv(fresh('wit.j', 64, False))
        F.assume_ge(laddc(lsub(rows[2], s.i), -1))
        row = ('agg', rt, tuple(I.mk_top(f, ('wit', 'row', ('f', q))) for q, f in enumerate(P.fields(rt))))
        cols = row[2][c]
        F.assume_ge(laddc(lsub(cols[2], s.j), -1))
        s.v = {}
        cell = []
        for q, (n, ft) in enumerate(P.types[cct]['variants'][0]['fields']):
            if n in FOUR:
                it = P.types[ft]['args'][0]; x = I.mk_top(it, ('wit', n)); s.v[n] = x[1]
                some = [z for z, V in enumerate(P.types[ft]['variants']) if V['name'] == 'Some'][0]
                cell.append(('en', ft, some, (x,)))
            else: cell.append(I.mk_top(ft, ('wit', 'col', ('f', q))))
        if len(s.v) != 4: raise Undecided('ColumnChunk lacks an index field')
        s.rt = rt; s.cct = cct
        st.mem[cols[1]] = ('seq', cct, cols[2], ('o', cols[1][1]), ((s.j, ('agg', cct, tuple(cell))),), None)
        st.mem[rows[1]] = ('seq', rt, rows[2], ('o', rows[1][1]), ((s.i, row),), None)
        st.mon['w'] = 0
        for n in ('i', 'j'): st.mem[('g', 'wit.' + n)] = g64(getattr(s, n))
        for n, l in s.v.items(): st.mem[('g', 'wit.' + n)] = ('i', l, 64, True)
        for n in ('offset', 'column'): st.mem[('g', 'wit.%s.end' % n)] = ('i', ladd(s.v[n + '_index_offset'], s.v[n + '_index_length']), 64, True)
        I.forkelem = {rt: s.row, cct: s.col}
    def row(s, I, st, hit): 
        if hit and st.mon['w'] == 0: st.mon['w'] = 1
    def col(s, I, st, hit):
        if hit and st.mon['w'] == 1: st.mon['w'] = 2
    def event(s, I, st, name, outcome, args, ret, extra): pass
    def exit(s, I, st, val): pass

@check('C21', 'proof', 'no panic site is reachable for arbitrary metadata; with an arbitrary column chunk that declares both indexes as a distinguished cell of the metadata, the loop invariants entail that the resulting range covers its four bounds; the loaded chunk is the file contents at the range and is reserved only when it fits; the slice handed to the decoder of each index is entailed to start at its own offset relative to the chunk and to have its own length',
       'abstract interpretation of MIR: relational loop invariants over a symbolic witness element, symbolic file, window identities at the decode events',
       'Sound for all metadata, chunks and files within the trusted base.',
       debug=True, floors={'panic site': 1, 'covers': 2, 'chunk': 1, 'window': 2, 'reserve': 1})
def c21(ctx):
    P = ctx.lib; R = Roots(P)
    class Range(Witness):
        def exit(s, I, st, val):
            if I.quiet: return
            F = st.F; lab = 'get_page_index_range'; w = I.where(st).inst.name
            ok = proto.isok(I, val)
            if ok is None: return s.ctx.ob(False, 'covers', lab, 'unknown result', w)
            if ok is False:
                neg = [sy for sy in list(F.iv) if F.symrng(sy)[1] < 0]
                s.ctx.ob(bool(neg) or s.over(F), 'refusal', lab, 'metadata may be refused although no offset or length is negative', w); return
            if st.mon['w'] != 2:
                s.ctx.ob(empty(F) or F.dead, 'examined', lab, 'a column chunk with both indexes may not be examined', w); return
            r = I.force(st, val[3][0]) if val[3][0][0] == 'top' else val[3][0]
            name = P.types[r[1]]['variants'][r[2]]['name'] if r[0] == 'en' else '?'
            v = s.v
            if name == 'None':
                s.ctx.ob(F.prove_eq(v['offset_index_length']) and F.prove_eq(v['column_index_length']), 'covers', lab, 'no range although a column chunk declares indexes that are not empty', w); return
            a, b = (ilin(I.sub(st, r[3][0], ('f', k))) for k in (0, 1))
            for n in ('offset', 'column'):
                o = v[n + '_index_offset']; e = ladd(o, v[n + '_index_length'])
                s.ctx.ob(F.prove_ge(lsub(o, a)), 'covers', '%s: %s start' % (lab, n), 'the range may start after the %s index of a column chunk' % n, w)
                s.ctx.ob(F.prove_ge(lsub(b, e)), 'covers', '%s: %s end' % (lab, n), 'the range may end before the %s index of a column chunk does' % n, w)
        def over(s, F): return False
    def run(lab, name, mons, cut='Q'):
        inst = R.fn[name]; proto._memo.clear()
        def before(I, st, a):
            for m in mons: m.before(I, st, a)
        I = ctx.run(P, inst, hook=proto.Cut(cut), monitors=mons, before=before)
        if I: nopanic(ctx, I, lab)
        return I
    run('get_page_index_range', 'page_index_range', [Range(ctx, P, 0)])
    class Chunk(File):
        def exit(s, I, st, val):
            if I.quiet or proto.isok(I, val) is False: return
            F = st.F; w = I.where(st).inst.name
            r = val[3][0] if val[0] == 'en' else ('?',)
            if r[0] == 'top': r = I.force(st, r)
            name = P.types[r[1]]['variants'][r[2]]['name'] if r[0] == 'en' else '?'
            if name == 'None': return
            t = r[3][0] if name == 'Some' else None
            v = I.sub(st, t, ('f', 0)) if t else ('?',)
            if v[0] != 'vec': return s.ctx.ob(False, 'chunk', s.lab, 'the chunk is not a known buffer', w)
            g = I.sub(st, t, ('f', 1)); a, b = (ilin(I.sub(st, g, ('f', k))) for k in (0, 1))
            o = s.origin(I, st, v)
            s.ctx.ob(o is not None and F.prove_eq(lsub(o, a)) and F.prove_eq(lsub(lsub(b, a), v[2])), 'chunk', s.lab, 'the chunk (%s bytes from %s) is not the part of the file in the range %s..%s; events %s' % (lstr(F.norm(v[2])), lstr(F.norm(o)) if o else '?', lstr(F.norm(a)), lstr(F.norm(b)), tracestr(st)), w)
    run('get_page_index_chunk', 'page_index_chunk', [Chunk(ctx, 'get_page_index_chunk')], 'P')
    class Decode:
        def before(s, I, st, a): pass
        def event(s, I, st, name, outcome, args, ret, extra):
            if not isinstance(name, tuple) or name[0] != 'fill' or outcome != 'ok': return
            if I.quiet: return
            n = (extra or '').split('::')[-1]
            k = {'OffsetIndex': 'offset', 'ColumnIndex': 'column'}.get(n)
            if k is None: return
            w = I.where(st).inst.name; lab = 'read_page_index: %s' % n
            v = I.read(st, args[1][1], args[1][2] + (('f', 0),)) if args[1][0] == 'p' else ('?',)
            ctx.ob(s.ok(I, st, v, k), 'window', lab, 'the %s is decoded from %s..%s of the chunk' % (n, lstr(st.F.norm(v[3])), lstr(st.F.norm(v[4]))) if v[0] == 'sl' else 'unknown input', w)
        def ok(s, I, st, v, k):
            F = st.F
            if v[0] != 'sl' or v[1] != I.args0[0][1]: return False
            off = F.norm(ladd(v[3], I.args0[1][1])); n = F.norm(lsub(v[4], v[3]))
            a = s.src(off); b = s.src(n)
            return a is not None and b is not None and a[0] == b[0] and a[1] == k + '_index_offset' and b[1] == k + '_index_length'
        def src(s, l):
            """(element, field name) when the value is exactly one of the fields of a column chunk"""
            if l[0] or len(l[1]) != 1 or l[1][0][1] != 1: return None
            o = origin_of(l[1][0][0])
            if o is None: return None
            for q in range(len(o) - 1, -1, -1):
                if isinstance(o[q], tuple) and o[q] and o[q][0] == 'f':
                    if q + 1 < len(o) and isinstance(o[q + 1], tuple) and o[q + 1][0] == 'v':
                        return o[:q], P.types[cct]['variants'][0]['fields'][o[q][1]][0]
            return None
        def exit(s, I, st, val): pass
    fm = strip(P, R.fn['page_index_range'].locals[1])
    rt = P.types[field(P, fm, 'row_groups')[1]]['args'][0]; cct = P.types[field(P, rt, 'columns')[1]]['args'][0]
    run('read_page_index', 'page_index_read', [Decode()])
def origin_of(sy):
    n = SYMS[sy].name
    return n if isinstance(n, tuple) else None
