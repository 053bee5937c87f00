"""C04, C17, C18: what successful reads consume and which bytes they hand out."""
import os, fw, proto, models
from fw import *
from dom import *
from checks import check
from c_coll import ilin
from c_wire import bitsof, remaining, instances_of, BY

GP, GQ, GS, GE, GV = ('g', 'varint.p'), ('g', 'varint.q'), ('g', 'slice.start'), ('g', 'slice.end'), ('g', 'varint.value')
def gi(l): return ('i', l, 64, False)

class Pos:
    """invariant: the bytes [start, start + p) of the slice all have the continuation bit, and the same for q. The ghosts grow only by
    bytes whose bit the path condition determines; they are brought up to date at loop heads, so they take part in the loop
    invariants. p runs ahead as far as is known; q starts anew at each loop and advances by at most one byte per iteration."""
    def __init__(s, ctx, lab): s.ctx = ctx; s.lab = lab; s.obj = None
    def before(s, I, st, a):
        v = I.read(st, a[0][1], a[0][2] + (('f', 0),))
        if v[0] != 'sl': raise Undecided('the slice input does not hold a slice')
        s.s0 = v
        I.write(st, a[0][1], a[0][2] + (('f', 0),), v)
        st.mem[GP] = gi(ZERO); st.mem[GQ] = gi(ZERO); st.mem[GS] = gi(v[3]); st.mem[GE] = gi(v[4])
    def byte(s, I, st, i):
        q = models.seqof(I, st, s.s0)
        if q[0] != 'seq': return None
        return I.elem(st, q, st.F.norm(ladd(s.s0[3], i)))
    def more(s, I, st, p):
        """the continuation bit of byte p, None when it is open"""
        e = s.byte(I, st, p)
        if e is None or e[0] != 'i': return None
        b = bitsof(st.F, e[1], 8)[7]
        return b if b in (0, 1) else None
    def athead(s, I, st, back=None):
        if GP not in st.mem: return
        if back is False: st.mem[GQ] = gi(ZERO)
        elif back and s.more(I, st, st.mem[GQ][1]) == 1: st.mem[GQ] = gi(st.F.norm(laddc(st.mem[GQ][1], 1)))
        p = st.mem[GP][1]; p0 = p
        for _ in range(80):
            if s.more(I, st, p) != 1: break
            p = laddc(p, 1)
        if p != p0: st.mem[GP] = gi(st.F.norm(p))
    def ret(s, I, st, inst, val):
        """the value of the varint at the start: the Ok integer returned by a function after which exactly the varint is consumed"""
        if GV in st.mem or not proto.isok(I, val) or not val[3]: return
        n = ilin(val[3][0])
        if n is None or val[3][0][2] < 32: return
        w = remaining(I, st)
        if w is None or w[1] != s.s0[1]: return
        s.athead(I, st)
        for g in (GP, GQ):
            if s.more(I, st, st.mem[g][1]) == 0 and st.F.prove_eq(lsub(w[3], laddc(ladd(s.s0[3], st.mem[g][1]), 1))): st.mem[GV] = gi(n)
    def event(s, I, st, name, outcome, args, ret, extra): pass
    def exit(s, I, st, val): pass

class Consume(Pos):
    def __init__(s, ctx, lab, what, unrolled): super().__init__(ctx, lab); s.what = what; s.unrolled = unrolled; s.n = 0
    def exit(s, I, st, val):
        if I.quiet: return
        ok = proto.isok(I, val)
        if ok is False: return
        w = I.where(st).inst.name; F = st.F; lab = s.lab
        v = remaining(I, st)
        if ok is None or v is None: return s.ctx.ob(False, 'window', lab, 'the result or the remaining slice is unknown', w)
        same = v[1] == s.s0[1] and F.prove_eq(lsub(v[4], s.s0[4]))
        s.ctx.ob(same, 'window', lab, 'the remaining slice does not end where the original one ends; events %s' % tracestr(st), w)
        if not same: return
        C = F.norm(lsub(v[3], s.s0[3]))
        s.n += 1
        s.ctx.ob(F.prove_ge(C) and F.prove_ge(lsub(s.s0[4], v[3])), 'present', lab, 'success although %s bytes may not all be inside the slice' % lstr(C), w)
        if isinstance(s.what, int):
            s.ctx.ob(F.prove_eq(laddc(C, -s.what)), 'consumed', lab, '%s bytes are consumed instead of %d' % (lstr(C), s.what), w); return
        s.athead(I, st)
        p = F.norm(st.mem[GP][1])
        last = s.more(I, st, p)
        if last != 0 and s.more(I, st, st.mem[GQ][1]) == 0: p = F.norm(st.mem[GQ][1]); last = 0
        if s.what == 'varint':
            s.ctx.ob(last == 0 and F.prove_eq(laddc(lsub(C, p), -1)), 'consumed', lab, '%s bytes are consumed, the varint is known to continue for %s bytes%s' % (lstr(C), lstr(p), '' if last == 0 else ' but not known to end there'), w); return
        # length prefix and payload
        n = st.mem.get(GV)
        exact = None
        if s.unrolled:
            k = F.const(p)
            if last == 0 and k is not None and k < 10:
                z = []
                for i in range(k + 1): z += bitsof(F, s.byte(I, st, lc(i))[1], 8)[:7]
                exact = F.from_bits(z[:64], 0)
        elif n is not None: exact = n[1]
        if exact is None:
            if s.unrolled: s.ctx.ob(last == 0, 'consumed', lab, 'success without having read the length prefix', w)
            return
        pay = laddc(lsub(C, p), -1)
        s.ctx.ob(last == 0 and (F.prove_eq(lsub(pay, exact)) or bitsof(F, pay, 64) == bitsof(F, exact, 64)), 'consumed', lab, '%s bytes are consumed: prefix of %s + 1 bytes, declared length %s' % (lstr(C), lstr(p), lstr(F.norm(exact))), w)

SLICE_OPS = {'read_byte': 1, 'read_double': 8, 'read_len': 'varint', 'read_i16': 'varint', 'read_i32': 'varint', 'read_i64': 'varint', 'skip_integer': 'varint', 'skip_binary': 'binary', 'read_binary': 'binary', 'read_string': 'binary'}
@check('C04', 'proof', 'for every primitive of the slice source: in the state of every successful exit the remaining slice starts at the original start plus exactly 1, 8, the varint length (ghost: bytes whose continuation bit the path determines) or varint length plus declared length, ends where the original ends, and start <= end',
       'abstract interpretation of MIR with a ghost position and an inductive invariant over the continuation bits',
       'Sound for all slices; the length of a binary is compared with its prefix for prefixes of up to ten bytes and, when the prefix is decoded by a function of its own, for all.',
       floors={'entry point': 10, 'window': 7, 'present': 7, 'consumed': 7})
def c04(ctx):
    P = ctx.lib; R = Roots(P)
    for op, what in SLICE_OPS.items():
        lab = 's_' + op; inst = R.fn.get(lab)
        if inst is None: ctx.undecided(lab, 'no such entry point'); continue
        for unr in (0, 11) if what == 'binary' else (0,):
            proto._memo.clear()
            M = Consume(ctx, lab, what, bool(unr))
            def setup(I): I.kill_loops = bool(unr)
            I = ctx.run(P, inst, hook=proto.Cut('P'), monitors=[M], before=M.before, setup=setup, unroll=unr)
            if I: ctx.ob(M.n > 0, 'entry point', lab, 'no successful exit', inst.name)

# ---------------------------------------------------------------- strings
def isstring(P, t):
    """a type that owns or borrows text"""
    s = proto.nolife(P, t)
    return re.search(r'(^|::|<|&)(str|String)>?$', re.sub(r'\s', '', s)) is not None and 'Option' not in s and 'Vec' not in s
import re
def text(I, st, v):
    """the slice behind a string value"""
    if v is None: return None
    if v[0] == 'top': v = I.force(st, v)
    if v[0] == 'en' and v[3]: v = v[3][0]
    if v[0] == 'top': v = I.force(st, v)
    return v
class Strings(Pos):
    """the text returned is the payload, and the payload was validated as a whole"""
    def __init__(s, ctx, lab, kind, get): super().__init__(ctx, lab); s.kind = kind; s.get = get; s.n = 0
    def before(s, I, st, a):
        if s.kind == 's': super().before(I, st, a)
    def athead(s, I, st, back=None):
        if s.kind == 's': super().athead(I, st, back)
    def ret(s, I, st, inst, val): pass
    def event(s, I, st, name, outcome, args, ret, extra):
        if name == 'from_utf8':
            if outcome == 'Err': st.mon['invalid'] = 1
            return
        if outcome in ('err', 'Err'): st.mon['failed'] = 1; return
        if name in (('in', 'read_binary'), ('in', 'read_string')): s.put(I, st, models.content(I, st, text(I, st, ret)), name[1] == 'read_string')
        elif name == 'read_exact':
            n, tag, sl = args
            if n is not None and st.F.const(n) == 1: return    # a byte of the length prefix
            ct = models.content(I, st, sl) if sl is not None else None
            if ct is not None: st.tags = st.tags | {('payload', ct)}     # lost where a loop delivers several pieces
    def put(s, I, st, ct, valid):
        st.mon['payload'] = ct if 'payload' not in st.mon else '?'
        if valid and ct is not None: st.tags = st.tags | {('utf8', ct)}
    def exit(s, I, st, val):
        if I.quiet: return
        w = I.where(st).inst.name; F = st.F; lab = s.lab; ok = proto.isok(I, val)
        if ok is None: return s.ctx.ob(False, 'text', lab, 'unknown result', w)
        if st.mon.get('invalid'):
            s.ctx.ob(ok is False and proto.errname(I, st, val) == 'InvalidString', 'invalid', lab, 'a payload that is not UTF-8 gives %s; events %s' % ('a result' if ok else proto.errname(I, st, val), tracestr(st)), w); return
        if not ok:
            s.ctx.ob(st.mon.get('failed') or proto.errname(I, st, val) != 'InvalidString', 'spurious', lab, 'an invalid string error without a failed validation; events %s' % tracestr(st), w); return
        s.n += 1
        v = text(I, st, s.get(I, st, val))
        sl = models.as_slice(I, st, v)
        ct = models.content(I, st, sl) if sl is not None else None
        if s.kind == 's':
            super().athead(I, st)
            q = remaining(I, st)
            pay = models.content(I, st, s.s0[:3] + (laddc(ladd(s.s0[3], st.mem[GP][1]), 1), q[3], 's')) if q else None
        elif s.kind == 'r':
            pay = [t[1] for t in st.tags if t[0] == 'payload']
            pay = pay[0] if len(pay) == 1 else ct
        else: pay = st.mon.get('payload')
        s.ctx.ob(ct is not None and same(F, ct, pay), 'text', lab, 'the text returned (%s) is not the payload (%s); events %s' % (show(ct), show(pay), tracestr(st)), w)
        s.ctx.ob(pay is not None and any(k[0] == 'utf8' and same(F, k[1], pay) for k in st.tags), 'validated', lab, 'the payload (%s) was not validated as a whole; events %s' % (show(pay), tracestr(st)), w)
def cows(I, st, kind, m, T, args, okv):
    """both forms a copy-on-write result can take"""
    if kind != 'in' or m not in ('read_binary', 'read_string'): return None
    v = I.force(st, okv) if okv[0] == 'top' else okv
    if v[0] == 'en' or v[1] is None: return None
    out = []
    for k, V in enumerate(I.P.types[v[1]]['variants']):
        n = st.copy()
        out.append((n, ('en', v[1], k, (I.force(n, I.mk_top(V['fields'][0][1], v[2] + (k,))) if v[0] == 'top' else U,))))
    return out
def same(F, a, b): return a == b and a is not None and a != '?' or isinstance(a, tuple) and isinstance(b, tuple) and models.eqcontent(F, a, b)
def show(c): return '?' if not isinstance(c, tuple) else '%s[%s..%s]' % (c[1], lstr(c[2]), lstr(c[3])) if c[0] == 'tag' else str(c)[:80]

@check('C17', 'proof', 'in the state of every successful exit of every string decoder the contents returned are identical to the payload delivered by the source, and a successful UTF-8 validation of exactly that payload is on the path; a failed validation leads to the invalid string error, which occurs for no other reason',
       'typestate analysis (validated buffers) with content identities, abstract interpretation of MIR',
       'Sound for all inputs within the trusted base; str::from_utf8 is trusted to decide validity.',
       floors={'entry point': 8, 'text': 8, 'validated': 8, 'invalid': 3})
def c17(ctx):
    P = ctx.lib; R = Roots(P)
    def run(lab, inst, kind, get, cut):
        proto._memo.clear()
        M = Strings(ctx, lab, kind, get)
        I = ctx.run(P, inst, hook=cut, monitors=[M], before=M.before)
        if I: ctx.ob(M.n > 0, 'entry point', lab, 'no successful exit', inst.name)
    for k in 'sra':
        cut = proto.Cut('P'); cut.want = cows
        run(k + '_read_string', R.fn[k + '_read_string'], k, lambda I, st, v: v[3][0], cut)
    for l, i, t in instances_of(P, 'fill_thrift', 'in_abs'):
        if isstring(P, t):
            cut = proto.Cut('Q', keep=[i.id]); cut.want = cows
            run(l, i, 'a', lambda I, st, v: I.read(st, I.args0[0][1], I.args0[0][2]), cut)

# ---------------------------------------------------------------- uninitialised memory
def reachable(I, st, v, seen, out):
    """buffers reachable from a value: (object, start or None, end) triples"""
    if not isinstance(v, tuple) or not v: return
    k = v[0]
    if k == 'top':
        return
    if k == 'vec': out.append((v[1], (), ZERO, v[2], 'Vec')); follow(I, st, v[1], seen, out)
    elif k == 'sl': out.append((v[1], v[2], v[3], v[4], 'slice')); follow(I, st, v[1], seen, out)
    elif k == 'bsl': reachable(I, st, v[1], seen, out)
    elif k in ('p', 'box'): follow(I, st, v[1], seen, out)
    elif k == 'agg' or k == 'en':
        for x in v[-1]: reachable(I, st, x, seen, out)
    elif k == 'seq':
        if v[5] is not None: out.append((v, None, None, v[2], 'array'))
        for _, x in v[4]: reachable(I, st, x, seen, out)
def follow(I, st, o, seen, out):
    if o in seen or o not in st.mem: return
    seen.add(o); reachable(I, st, st.mem[o] if st.mem[o][0] != 'seq' else ('agg', None, tuple(x for _, x in st.mem[o][4])), seen, out)
class Init:
    def __init__(s, ctx, lab): s.ctx = ctx; s.lab = lab; s.n = 0
    def event(s, I, st, name, outcome, args, ret, extra): pass
    def exit(s, I, st, val):
        if I.quiet: return
        s.n += 1
        out = []; seen = set(); F = st.F
        reachable(I, st, val, seen, out)
        for a in I.args0: reachable(I, st, a, seen, out)
        w = I.where(st).inst.name
        rule = 'returned' if proto.isok(I, val) else 'on error'
        if not out: s.ctx.ob(True, rule, s.lab)
        for o, p, a, b, what in out:
            q = o if p is None else I.read(st, o, p) if o in st.mem else None
            if q is None or q[0] != 'seq' or q[5] is None: s.ctx.ob(True, rule, s.lab); continue
            s.ctx.ob(F.prove_ge(lsub(q[5], b)) or a is not None and F.prove_ge(lsub(a, b)), rule, s.lab, 'a %s of %s bytes is handed out although only %s are known to be written; events %s' % (what, lstr(F.norm(b)), lstr(F.norm(q[5])), tracestr(st)), w)
UNINIT = re.compile(r'::set_len$|assume_init|MaybeUninit|::zeroed|from_raw_parts|new_uninit|spare_capacity')
@check('C18', 'proof', 'at every exit (success and error) of every function that reads from a Read source, each buffer reachable from the result or the arguments is known to be initialised up to its length: set_len only extends the length, read_exact that succeeds and writes extend the initialised part',
       'abstract interpretation of MIR tracking the initialised prefix of each buffer',
       'Sound for all inputs and short reads, trusting Read::read_exact to fill its buffer when it succeeds; every call of an operation that creates uninitialised memory must be on an analysed path.',
       floors={'entry point': 12, 'returned': 12, 'on error': 12})
def c18(ctx):
    P = ctx.lib; R = Roots(P)
    roots = ['r_read_binary', 'r_read_string', 'r_skip_binary', 'metadata_chunk', 'page_index_chunk'] + ['%s_%s' % (k, o) for k in 'rs' for o in ('read_byte', 'read_double', 'read_len', 'read_i64')] + ['s_read_binary', 's_read_string', 'a_read_string']
    done = set()
    for n in roots:
        inst = R.fn[n]
        proto._memo.clear()
        M = Init(ctx, n)
        I = ctx.run(P, inst, hook=proto.Cut('P'), monitors=[M])
        if I:
            ctx.ob(M.n > 0, 'entry point', n, 'no exit', inst.name)
            done |= set(I.inlined)
    for i in P.insts.values() if isinstance(P.insts, dict) else P.insts:
        if i is None or not i.user or not i.body or i.crate == 'ct_harness' : continue
        for b in i.blocks:
            t = b['t']
            if t[0] != 'call': continue
            k = t[1].get('model', t[1].get('inst'))
            n = P.insts[k].defn if k is not None else ''
            if UNINIT.search(n): ctx.ob(i.id in done, 'site', '%s calls %s' % (i.name, n), 'this call was not analysed', i.name)

# ---------------------------------------------------------------- binaries from readers
GT, GT0 = ('g', 'reader.taken'), ('g', 'reader.prefix')
from c_wire import Bytes, BY, runbytes, check_varint_bytes
class Taken(Bytes):
    """how many bytes a reader delivered, in total and as the length prefix"""
    def __init__(s, ctx, lab, unrolled): super().__init__(ctx); s.lab = lab; s.unrolled = unrolled; s.n = 0; s.open = False
    def before(s, I, st, a): st.mem[GT] = gi(ZERO)
    def event(s, I, st, name, outcome, args, ret, extra):
        if s.unrolled: super().event(I, st, name, outcome, args, ret, extra)
        if name == 'read_exact' and outcome == 'Ok' and args[2] is not None and GV in st.mem and st.F.prove_eq(lsub(args[0], st.mem[GV][1])):
            st.tags = st.tags | {('payload', models.content(I, st, args[2]))}
        if name in ('read', 'read_exact', 'read_to_end') and outcome in ('ok', 'Ok') and GT in st.mem:
            if args[0] is None: st.mem.pop(GT)
            else: st.mem[GT] = gi(st.F.norm(ladd(st.mem[GT][1], args[0])))
    def ret(s, I, st, inst, val):
        if GV in st.mem or GT not in st.mem or not proto.isok(I, val) or not val[3]: return
        n = ilin(val[3][0])
        if n is None or val[3][0][2] < 32 or st.F.prove_eq(st.mem[GT][1]): return
        st.mem[GV] = gi(n); st.mem[GT0] = st.mem[GT]
    def exit(s, I, st, val):
        if I.quiet or st.F.dead: return
        if proto.isok(I, val) is False: return
        s.n += 1
        F = st.F; w = I.where(st).inst.name
        if os.environ.get("DBG"): print("EXIT", s.unrolled, GT in st.mem, GV in st.mem, I.opaque)
        if GT not in st.mem or any(PANICKY_IO.search(n) for n in I.opaque): s.open = True; return
        t = st.mem[GT][1]; n = None
        if s.unrolled:
            B = list(st.mem.get(BY, ())); z = []
            for k, b in enumerate(B):
                if isinstance(b[0], str): break
                x = bitsof(F, b, 8); z += x[:7]
                if x[7] == 0: n = F.from_bits(z[:64], 0); pre = lc(k + 1); break
                if x[7] != 1: break
        elif GV in st.mem: n = st.mem[GV][1]; pre = st.mem[GT0][1]
        if n is None: s.open = True; return
        got = lsub(t, pre)
        eq = lambda a, b: F.prove_eq(lsub(a, b)) or bitsof(F, F.norm(a), 64) == bitsof(F, F.norm(b), 64)
        s.ctx.ob(eq(got, n), 'taken', s.lab, '%s bytes are taken from the reader behind a length prefix that declares %s' % (lstr(F.norm(got)), lstr(F.norm(n))), w)
        if not val[3]: return
        v = text(I, st, val[3][0]); sl = models.as_slice(I, st, v) if v is not None else None
        if 'skip' in s.lab: return
        if sl is None: return s.ctx.ob(False, 'length', s.lab, 'the binary that is returned is not known', w)
        l = models.sllen(sl)
        s.ctx.ob(eq(l, n), 'length', s.lab, 'a binary of %s bytes is returned for a length prefix that declares %s' % (lstr(F.norm(l)), lstr(F.norm(n))), w)
        whole = [t[1] for t in st.tags if t[0] == 'payload']
        if whole: s.ctx.ob(any(same(F, models.content(I, st, sl), c) for c in whole), 'bytes', s.lab, 'the bytes returned (%s) are not the ones delivered (%s)' % (show(models.content(I, st, sl)), ' '.join(map(show, whole))), w)
PANICKY_IO = re.compile(r'std::io::')
@check('C33', 'proof', 'at every successful exit of the functions that read or skip a binary or string of a reader: the bytes taken behind the length prefix (ghost counter over the read operations, kept through loops) are as many as the prefix declares, the value returned has that length, and where one operation delivers the payload its contents are the buffer that was filled; for writers, on every unrolled path the prefix is compared bit by bit with the varint of the length, and what follows with the content of the argument',
       'abstract interpretation of MIR with a ghost byte counter and content identities',
       'Sound for all readers within the trusted base; the order of the bytes of a payload that is delivered in several pieces is not tracked.',
       floors={'entry point': 5, 'taken': 2, 'length': 2, 'prefix': 4, 'content': 4})
def c33(ctx):
    P = ctx.lib; R = Roots(P)
    for lab in ('r_read_binary', 'r_read_string', 'r_skip_binary'):
        inst = R.fn.get(lab)
        if inst is None: ctx.undecided(lab, 'no such entry point'); continue
        for unr in (0, 11):
            proto._memo.clear()
            M = Taken(ctx, lab, bool(unr))
            def setup(I): I.kill_loops = bool(unr)
            I = ctx.run(P, inst, hook=proto.Cut('P'), monitors=[M], before=M.before, setup=setup, unroll=unr)
            if I: ctx.ob(M.n > 0, 'entry point', lab, 'no successful exit', inst.name)
            if I and not M.open: break
    for lab in ('w_binary', 'w_string'):
        inst = R.fn.get(lab)
        if inst is None: ctx.undecided(lab, 'no such entry point'); continue
        I, _ = runbytes(ctx, P, inst, 'w', 11)
        n = 0
        for st, v in I.exits if I else []:
            if not proto.isok(I, v): continue
            n += 1; F = st.F
            a = models.as_slice(I, st, text(I, st, I.args0[1])); B = list(st.mem.get(BY, ())); runs = [k for k, b in enumerate(B) if isinstance(b[0], str)]
            l = models.sllen(a); c = models.content(I, st, a)
            if F.prove_eq(l) and not runs: runs = [len(B)]
            pre = B[:runs[0]] if runs else B
            ctx.ob(bool(pre), 'prefix', lab, 'no length prefix is written; events %s' % tracestr(st), inst.name)
            if pre: check_varint_bytes(ctx, F, pre, bitsof(F, F.norm(l), 64), 'prefix', lab, inst.name)
            rest = B[len(pre):]
            ctx.ob(not rest and F.prove_eq(l) or len(rest) == 1 and rest[0][0] == 'run' and len(rest[0]) == 2 and same(F, rest[0][1], c), 'content', lab, 'what follows the length prefix (%s) is not the content of the argument; events %s' % (' '.join(show(b[1]) if len(b) == 2 else str(b[0]) for b in rest) or 'nothing', tracestr(st)), inst.name)
        ctx.ob(n > 0, 'entry point', lab, 'no successful exit', inst.name)
