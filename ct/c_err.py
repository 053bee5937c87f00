"""C31: errors report their cause."""
import fw, proto, models, interp
from fw import *
from dom import *
from checks import check
from c_scan import interrupted, scan, decode_roots, encode_roots, isprim, cutfor


ERR = ('g', 'lasterr'); LEN = ('g', 'declared')
IGN = ('from_utf8', 'rc_shared')
LIMIT = 16 * 1024 * 1024
def variant(I, st, v):
    v = I.force(st, v) if v[0] == 'top' else v
    return (I.P.types[v[1]]['variants'][v[2]]['name'], v) if v[0] == 'en' else (None, v)
def tyname(P, v): return P.types[v[1]].get('name', '').split('::')[-1] if v[0] in ('top', 'en', 'agg') and v[1] is not None else ''
def carries(I, st, e, cause):
    """does an error value report the failure 'cause' (a value of the type that the failed operation returned)"""
    if e == cause: return True
    P = I.P
    if e[0] == 'top' or e[0] == 'agg': return False
    if tyname(P, e) == tyname(P, cause) and cause[0] == 'top' and P.types[e[1]]['k'] == 'adt' and e[1] == cause[1]:
        # the cause may have been examined: its parts are unchanged
        c = I.force(st, cause)
        if c[0] == 'en': return c == e or (c[2] == e[2] and all(carries(I, st, I.sub(st, e, ('f', j)), I.sub(st, c, ('f', j))) for j in range(len(e[3]))))
        return False
    n, e = variant(I, st, e)
    if n is None or len(e[3]) != 1: return False
    x = e[3][0]
    if n.upper() == 'IO' and tyname(P, cause) == 'Error':
        return x == cause or x == models.kindof(I, cause, x[1] if x[0] in ('top', 'en') else None)
    return n == 'Thrift' and carries(I, st, x, cause) or n.upper() == 'IO' and x == cause

@check('C31', 'proof', 'typestate monitor in product with the abstract states of every decode, skip, encode and file entry point that remembers the error of a failed operation: at every exit reached after a failure the error returned is that error, or the kind of it; an I/O kind that is reported without a failed operation is that of the end of input; the length in an invalid-length error equals the declared or given length',
       'typestate analysis with identity of symbolic error values',
       'Sound for all inputs and all failure points within the trusted base.',
       floors={'entry point': 600, 'cause': 600, 'end of input': 10, 'length': 5})
def c31(ctx):
    P = ctx.lib
    class M:
        def __init__(s, label): s.label = label
        def event(s, I, st, name, outcome, args, ret, extra):
            if name in IGN: return
            if outcome in ('err', 'Err'): st.mon['failed'] = 1
            elif outcome in ('ok', 'Ok'):
                st.mon.pop('failed', None)      # retried
                if name == ('in', 'read_len') and ret[0] == 'i': st.mem[LEN] = ret
        def athead(s, I, st, back):
            if st.mon.get('failed') and interrupted(I, st): del st.mon['failed']      # an interrupted operation is tried again
        def exit(s, I, st, v):
            if I.quiet or st.F.dead or proto.isok(I, v) is not False: return
            w = st.frames[0].inst; e = v[3][0]
            if st.mon.get('failed'):
                c = st.mem.get(ERR)
                return ctx.ob(c is not None and carries(I, st, e, c), 'cause', w.defn + ('' if isprim(s.label) else ':' + s.label), 'a failed operation is reported as %s instead of with the error it returned; %s' % (show(I, st, e), tracestr(st)), w.name)
            n, e = variant(I, st, e)
            if n == 'Thrift': n, e = variant(I, st, e[3][0])
            if n is not None and n.upper() == 'IO':
                k, x = variant(I, st, e[3][0]) if e[3][0][0] in ('en',) else (None, None)
                if e[3][0][0] == 'top' and e[3][0][2][0] == 'ioek': k, x = variant(I, st, e[3][0][2][1])
                ctx.ob(k == 'UnexpectedEof', 'end of input', w.defn + ':' + s.label, 'an I/O error of kind %s is reported although no operation failed; %s' % (k or '?', tracestr(st)), w.name)
            b = s.label[2:]
            if s.label in ('s_byte', 's_double', 's_skip_integer', 's_read_byte', 's_read_double'): ctx.ob(n == 'IO', 'end of input', w.defn + ':' + s.label, 'missing bytes are reported as %s; %s' % (n, tracestr(st)), w.name)
            if n == 'InvalidBinaryLen':
                x = e[3][0]; want = None
                if s.label.startswith('w_'):
                    sl = models.as_slice(I, st, I.args0[1])
                    want = models.sllen(sl) if sl else None
                elif LEN in st.mem: want = st.mem[LEN][1]
                ok = x[0] == 'i' and (st.F.prove_eq(x[1], want) if want is not None else st.F.prove_ge(laddc(x[1], -LIMIT - 1)))
                ctx.ob(ok, 'length', w.defn + ':' + s.label, 'the length reported as invalid is %s, not the one declared' % (lstr(st.F.norm(x[1])) if x[0] == 'i' else '?'), w.name)
    def show(I, st, e):
        n, e = variant(I, st, e)
        return n if n else str(e)[:80]
    def done(I, label, inst): ctx.ob(True, 'entry point', label)
    scan(ctx, P, decode_roots(P) + encode_roots(P), monitors=lambda l: [M(l)], done=done)
    R = Roots(P)
    # lengths: with the length prefix as one operation
    for n, i in sorted(R.fn.items()):
        if n in ('metadata_chunk', 'page_index_chunk', 'page_index_read'): cut = proto.Cut('Q')
        elif n[:2] in ('s_', 'r_') and n[2:] in ('binary', 'string', 'skip_binary', 'read_binary', 'read_string'): cut = proto.Cut('Q')
        else: continue
        proto._memo.clear()
        I = ctx.run(P, i, hook=cut, monitors=[M(n)])
        if I: done(I, n, i)
    # conversions
    for n, i in sorted(R.fn.items()):
        if not n.startswith(('err_from_', 'perr_from_')): continue
        I = ctx.run(P, i, hook=proto.Cut('P'))
        if not I: continue
        for st, v in I.exits:
            a = I.args0[0]; k, v = variant(I, st, v)
            x = v[3][0] if k else None
            ok = k is not None and (x == a or tyname(P, a) == 'Error' and x == models.kindof(I, a, x[1]))
            ctx.ob(ok and k.upper() == ('THRIFT' if n.endswith('thrift') else 'IO'), 'cause', n, 'the conversion yields %s' % k, i.name)
        done(I, n, i)
