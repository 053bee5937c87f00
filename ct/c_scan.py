"""Checks that scan every function reachable from the public roots: panics, recursion, allocation, errors, unchecked operations, progress."""
import re
import fw, proto, interp
from fw import *
from dom import *
from checks import check

import os
DEBUG = os.environ.get('CT_DEBUG')
PANICKY = re.compile(r'unwrap|expect|panic|split_at|copy_from_slice|swap_remove|::remove$|::insert$|drain|split_off|::index|rotate|chunks|windows|step_by|copy_within|from_utf8_lossy_panic|::abs$|::pow$|div_euclid|rem_euclid|::borrow(_mut)?$|into_inner')

def decode_roots(P):
    R = Roots(P)
    out = [(l, i) for l, i, t, m in R.methods(*DECODE)]
    out += [(n, i) for n, i in R.fn.items() if isread(n)]
    return out
def encode_roots(P):
    R = Roots(P)
    return [(l, i) for l, i, t, m in R.methods(*ENCODE)] + [(n, i) for n, i in R.fn.items() if n[:2] == 'w_' or n.startswith('a_field')]
def isprim(label): return '/' not in label
def cutfor(label):
    if isprim(label) and label[:2] in ('s_', 'r_', 'a_', 'w_'): return proto.Cut('P')
    return proto.Cut('Q', wfield='/write_thrift/' in label)

def scan(ctx, P, roots, monitors=lambda l: [], done=None, cut=cutfor, rec=True, setup=None, args=None, before=None):
    """analyse every root; members of call cycles are analysed from the argument ranges they are reached with"""
    RC = RecCut(P, reach(P, [i.id for _, i in roots]))
    for label, inst in roots:
        if not inst.body: ctx.undecided(label, 'no MIR for this root'); continue
        RC.hook = cut(label)
        proto._memo.clear()
        if DEBUG: print("root", label, flush=True)
        I = ctx.run(P, inst, hook=RC, monitors=monitors(label), setup=setup, args=(args(label) if args else None), before=before)
        if I and done: done(I, label, inst)
    if not rec: return RC
    # fixpoint of argument ranges over the cycle members
    mode = proto.Cut('P')
    n = 0
    quiet = Ctx(ctx.id, ctx.tier, ctx.seed)
    while RC.dirty:
        k = RC.dirty.pop(0); n += 1
        if n > 400: ctx.undecided(P.insts[k].name, 'argument ranges do not stabilise'); break
        RC.hook = recmode(P, k)
        I = quiet.run(P, P.insts[k], hook=RC, monitors=[], args=RC.argsfor(k), setup=setup)
    for k in sorted(RC.ctxt):
        RC.hook = recmode(P, k)
        I = ctx.run(P, P.insts[k], hook=RC, monitors=monitors('rec:' + P.insts[k].defn), args=RC.argsfor(k), setup=setup, before=before)
        if I and done: done(I, 'rec:' + P.insts[k].name, P.insts[k])
    ctx.extra['call_cycles'] = sorted({P.insts[k].defn for k in RC.members})
    return RC
def recmode(P, k):
    return proto.Cut('Q', keep=[k])

def collect(ctx, I, label, kinds, rule):
    """turn the interpreter's obligation counters into obligations of the check"""
    for sk, (n, bad) in I.obs.items():
        if sk[0] not in kinds: continue
        ctx.n += 1; r = ctx.rules.setdefault(rule, [0, 0]); r[0] += 1
        if not bad: ctx.ok += 1; r[1] += 1
        else:
            f = I.fails.get((sk[0], sk[1], sk[5])) or {}
            ctx.viol(rule, '%s:%s' % (sk[1], sk[5]), 'may happen when analysing %s; call path %s; events %s' % (label, ' > '.join(f.get('stack', [])), f.get('trace')), '%s in %s' % (f.get('at'), f.get('fn')), f)

@check('C01', 'proof', 'every assert, panic call, bounds check and panicking std call in any function reached from a decode or skip entry point is shown unreachable in the abstract states that reach it; a site that is not shown unreachable is reported with its call path',
       'abstract interpretation of MIR (intervals, linear relations, bits) over all panic sites',
       'Sound for all inputs within the trusted base: each panic site on each path is refuted in the numeric domain; members of recursive cycles are analysed from inferred argument ranges.',
       debug=True, floors={'entry point': 420})
def c01(ctx):
    P = ctx.lib
    def done(I, label, inst):
        collect(ctx, I, label, ('panic',), 'panic site')
        for n, c in I.opaque.items():
            ctx.ob(not PANICKY.search(n), 'unmodelled callee', n, 'an unmodelled function that may panic is called from %s' % label)
        ctx.ob(True, 'entry point', label)
    scan(ctx, P, decode_roots(P), done=done)

@check('C03', 'proof', 'at every allocation whose size is requested up front (with_capacity, reserve, from_elem, resize, read_to_end) reached from a decode entry point, the abstract state entails the size is at most 16 MiB or 10,000,000 elements; lengths returned by the length-prefixed reads are entailed to be within the limits',
       'abstract interpretation of MIR: size of every allocation and every accepted length bounded in the abstract state',
       'Sound for all inputs within the trusted base; amortised growth by one pushed element is not counted as a reservation.',
       floors={'entry point': 420})
def c03(ctx):
    P = ctx.lib
    class M:
        def event(s, I, st, name, outcome, args, ret, extra): pass
        def exit(s, I, st, val): pass
        def alloc(s, I, st, what, n, et):
            if what in ('copy', 'extend', 'push', 'box'): return
            if I.quiet: return
            w = I.where(st)
            sz = max(I.elemsize(et), 1)
            ok = n is not None and (st.F.prove_ge(laddc(lneg(n), MAXE)) and (sz > 1 or st.F.prove_ge(laddc(lneg(n), MAXB))) or st.F.prove_ge(laddc(lneg(lscale(n, sz)), MAXB)))
            ctx.ob(ok, 'reservation', '%s:%s' % (w.inst.defn, what), 'size %s is not entailed to be within the limits; %s' % (lstr(st.F.norm(n)) if n else '?', tracestr(st)), w.inst.name)
    MAXE = 10_000_000; MAXB = 16 * 1024 * 1024
    LEN = {'read_binary': MAXB, 'read_string': MAXB}
    def done(I, label, inst):
        ctx.ob(True, 'entry point', label)
        b = label.split('::')[-1]
        if isprim(label) and b[2:] in ('read_coll', 'read_map'):
            for st, v in I.exits:
                if proto.isok(I, v):
                    c = I.sub(st, v[3][0], ('f', 0))
                    ctx.ob(st.F.prove_ge(laddc(lneg(c[1]), MAXE)), 'accepted length', label, 'an element count above the limit is accepted', inst.name)
        if isprim(label) and b[0] in 'sr' and b[2:] in LEN:
            import models
            for st, v in I.exits:
                if proto.isok(I, v):
                    x = v[3][0]
                    x = I.force(st, x) if x[0] == 'top' else x
                    if x[0] == 'en':
                        sl = models.as_slice(I, st, x[3][0])
                        ok = sl is not None and st.F.prove_ge(laddc(lneg(models.sllen(sl)), LEN[b[2:]]))
                    else: ok = False
                    ctx.ob(ok, 'accepted length', label, 'a binary above the limit is accepted: %s' % (v,), inst.name)
    scan(ctx, P, decode_roots(P), monitors=lambda l: [M()], done=done)

@check('C05', 'proof', 'typestate monitor in product with the abstract states: after any failed read, write, skip or nested call no further input/output event happens and every exit reached is an error; a partial read or write of the underlying stream is continued exactly where it stopped before any success',
       'typestate analysis (error monitor) over all paths of all decode, skip and encode entry points',
       'Sound for all inputs and all failure points within the trusted base.',
       floors={'entry point': 690})
def c05(ctx):
    P = ctx.lib
    IGN = ('from_utf8',)
    class M:
        def __init__(s, label): s.label = label
        def event(s, I, st, name, outcome, args, ret, extra):
            bad = outcome in ('err', 'Err')
            if name in IGN: 
                return
            if st.mon.get('failed') in ('read', 'write') and name in (st.mon['failed'], st.mon['failed'] + '_exact') and st.mon.get('obj2') == repr(args[-1][1:3] if args[-1] else None): del st.mon['failed'], st.mon['obj2']; st.mon.pop('obj3', None)     # retried (interrupted)
            if st.mon.get('failed') and not I.quiet:
                w = I.where(st)
                ctx.ob(False, 'event after failure', '%s:%s' % (w.inst.defn, name), 'operation %s follows a failed operation; %s' % (name, tracestr(st)), w.inst.name)
            if bad:
                st.mon['failed'] = name
                if name in ('read', 'write'):
                    sl = args[-1]; st.mon['obj2'] = repr(sl[1:3] if sl else None)
                    if sl: st.mem[('g', 'rp')] = ('i', st.F.norm(sl[3]), 64, False); st.mem[('g', 're')] = ('i', st.F.norm(sl[4]), 64, False); st.mon['obj3'] = sl[1:3]
            elif name in ('read', 'write', 'read_exact', 'write_all', 'read_to_end'): s.transfer(I, st, name, args)
        def athead(s, I, st, back):
            # an interrupted operation is tried again: nothing was transferred
            if st.mon.get('failed') in ('read', 'write') and interrupted(I, st):
                del st.mon['failed'], st.mon['obj2']
                if 'obj3' in st.mon: st.mon['obj'] = st.mon['obj3']; st.mem[('g', 'tp')] = st.mem[('g', 'rp')]; st.mem[('g', 'te')] = st.mem[('g', 're')]
            st.mon.pop('obj3', None)
        def leave(s, I, st, fid):
            st.mon.pop('obj3', None)
            o = st.mon.get('obj')
            if o is not None and o[0][:2] == ('l', fid):
                del st.mon['obj']
                if not st.F.prove_ge(lsub(st.mem[('g', 'tp')][1], st.mem[('g', 'te')][1])): st.mon['short'] = 'read'
                st.mem[('g', 'tp')] = st.mem[('g', 'te')] = ('i', ZERO, 64, False)
        def transfer(s, I, st, name, args):
            # ghosts: where the rest of a partial transfer starts and ends; it has to be continued there
            F = st.F; g = lambda k: st.mem[('g', k)][1]
            sl = args[-1]; n = args[0]
            if name == 'read_to_end':
                if args[1] is not None and not F.prove_eq(n, args[1]): st.mon['short'] = 'read_to_end'
                return
            if sl is None: 
                st.mon['short'] = name; return
            if not F.prove_ge(lsub(g('tp'), g('te'))):
                if not (st.mon.get('obj') == sl[1:3] and F.prove_eq(sl[3], g('tp')) and F.prove_eq(sl[4], g('te'))): st.mon['short'] = name
            st.mon.pop('obj', None)
            if name == 'write': n = args[1]
            if name in ('read', 'write') and not F.prove_eq(n, lsub(sl[4], sl[3])):
                st.mon['obj'] = sl[1:3]
                st.mem[('g', 'tp')] = ('i', F.norm(ladd(sl[3], n)), 64, False); st.mem[('g', 'te')] = ('i', F.norm(sl[4]), 64, False)
            else: st.mem[('g', 'tp')] = st.mem[('g', 'te')] = ('i', ZERO, 64, False)
        def exit(s, I, st, val):
            if I.quiet: return
            if proto.isok(I, val) is not False:
                F = st.F; g = lambda k: st.mem[('g', k)][1]
                ok = not st.mon.get('short') and F.prove_ge(lsub(g('tp'), g('te')))
                ctx.ob(ok, 'complete transfer', st.frames[0].inst.defn, 'success although a %s may have transferred fewer bytes than asked for (for instance none, at the end of the stream); %s' % (st.mon.get('short') or 'read or write', tracestr(st)), st.frames[0].inst.name)
            if st.mon.get('failed'):
                ok = proto.isok(I, val) is False
                ctx.ob(ok, 'failure path', st.frames[0].inst.defn + ('' if isprim(s.label) else ''), 'a failed operation ends in %s; %s' % (val[:3], tracestr(st)), st.frames[0].inst.name)
    def done(I, label, inst):
        ctx.ob(True, 'entry point', label)
    roots = decode_roots(P) + encode_roots(P)
    def before(I, st, a):
        for k in ('tp', 'te', 'rp', 're'): st.mem[('g', k)] = ('i', ZERO, 64, False)
    scan(ctx, P, roots, monitors=lambda l: [M(l)], done=done, before=before)

@check('C19', 'proof', 'at every unchecked operation (get_unchecked, set_len, unwrap_unchecked, unreachable_unchecked, ptr::write over live values, wide vector loads, raw C strings, from_utf8_unchecked) reached from any public entry point, the abstract state entails its safety condition',
       'abstract interpretation of MIR: safety conditions of unchecked operations entailed at every reaching state',
       'Sound for all inputs and safe callers within the trusted base.',
       floors={'entry point': 700})
def c19(ctx):
    P = ctx.lib
    R = Roots(P)
    roots = decode_roots(P) + encode_roots(P)
    have = {l for l, _ in roots}
    roots += [(n, i) for n, i in R.fn.items() if n not in have]
    def done(I, label, inst):
        collect(ctx, I, label, ('ub',), 'unchecked operation')
        ctx.ob(True, 'entry point', label)
    def cname(I, st, v):
        """a pointer that is known to address nul-terminated bytes"""
        if v[0] == 'cptr': return True
        if v[0] == 'top' and ('f', 0) in v[2]: return True     # the pointer of an existing name: constructions are checked
        if v[0] == 'ep' or v[0] == 'sl' or v[0] == 'p':
            if v[0] == 'p': q = I.read(st, v[1], v[2][:-1]) if v[2] and v[2][-1][0] == 'i' else ('uninit',); a = v[2][-1][1] if v[2] and v[2][-1][0] == 'i' else ZERO; obj, path = v[1], v[2][:-1]
            else: q = I.read(st, v[1], v[2]); a = v[3]; obj, path = v[1], v[2]
            if q[0] == 'top' and ('f', 0) in (q[2] or ()): return True
            if q[0] != 'seq': return obj[0] == 'obj' and ('f', 0) in obj[1]
            if obj[0] == 'obj' and ('f', 0) in obj[1]: return True
            last = I.elem(st, q, st.F.norm(laddc(q[2], -1)))
            return last[0] == 'i' and st.F.prove_eq(last[1], ZERO) and st.F.prove_ge(laddc(lsub(q[2], a), -1))
        return False
    def agg(I, st, T, vs):
        if T['name'] == 'compact_thrift_runtime::FieldName':
            for (n, t), v in zip(T['variants'][0]['fields'], vs):
                if P.types[t]['k'] == 'ptr':
                    w = I.where(st)
                    ctx.ob(cname(I, st, v), 'raw name', w.inst.defn, 'a field name is built from a pointer that is not known to address nul-terminated bytes: %s' % (v,), w.inst.name)
    def fromptr(c, v):
        if c.I.quiet: return
        w = c.I.where(c.st)
        ctx.ob(cname(c.I, c.st, v), 'raw name', w.inst.defn + ':from_ptr', 'CStr::from_ptr on a pointer that is not the pointer of a field name: %s' % (v,), w.inst.name)
    memo = {}
    def owns(t):
        """may a value of this type own something that has to be dropped"""
        if t in memo: return memo[t]
        memo[t] = False
        T = P.types[t]
        if T['k'] == 'adt':
            n = T['name']
            if n.startswith(('std::vec::Vec', 'std::string::String', 'std::boxed::Box', 'std::rc::', 'std::sync::Arc', 'alloc::')) or T.get('kind') == 'union': r = True
            else: r = any(owns(f[1]) for v in T['variants'] for f in v['fields'])
        elif T['k'] in ('tuple', 'array', 'slice', 'closure'): r = any(owns(x) for x in (P.fields(t) if T['k'] in ('tuple', 'closure') else [T['elem']]))
        else: r = T['k'] not in ('int', 'bool', 'float', 'char', 'ref', 'ptr', 'never', 'fndef', 'fnptr', 'str')
        memo[t] = r
        return r
    def ptrwrite(c, o, p, old):
        fr = c.st.frames[-1]
        if c.I.quiet or not fr.inst.user: return
        if old[0] in ('uninit', 'i', 'b', 'f64'): return
        t = old[1] if old[0] in ('en', 'top', 'agg') and isinstance(old[1], int) else None
        if t is not None and not owns(t): return
        var = old[2] if old[0] == 'en' else c.st.ch.get(old[2]) if old[0] == 'top' else None
        ok = var is not None and t is not None and not any(owns(f[1]) for f in P.types[t]['variants'][var]['fields'])
        ctx.ob(ok, 'raw write', fr.inst.defn, 'a raw write may overwrite a value that is still held: %s' % (old[:3],), fr.inst.name)
    def setup(I):
        I.on_agg = agg; I.collect['cstr_from_ptr'] = fromptr; I.collect['ptr_write'] = ptrwrite
    scan(ctx, P, roots, done=done, setup=setup)

# ---------------------------------------------------------------- C02
MAXDEPTH = 1024
MINDEPTH = 24
def heaviest(W):
    """the largest weight of a simple cycle"""
    best = 0
    def go(first, v, seen, w):
        nonlocal best
        for (a, b), x in W.items():
            if a != v: continue
            if b == first: best = max(best, w + x)
            elif b not in seen and b > first: go(first, b, seen | {b}, w + x)
    for v in sorted({a for a, _ in W}): go(v, v, {v}, 0)
    return best
def counters(ctx, P, comp, E, ENT, pos, rule, limit):
    """E: calls inside of a component with {(argument, argument): (up, down, range)}, ENT: calls from outside with
    {argument: range}, pos: the integer arguments of the members"""
    names = [P.insts[k].defn for k in comp]
    best = None
    import itertools
    for combo in itertools.product(*[pos[k] or [None] for k in comp]):
        if None in combo: 
            continue
        pm = dict(zip(comp, combo))
        for di in (0, 1):
            bad = []; weak = {}
            lo = hi = None
            for c, d, site, m in E:
                q = m.get((pm[c], pm[d]))
                if q is None or q[di] == 0: bad.append((c, d, site, 'the counter does not move in one direction')); continue
                if q[di] == 1: weak.setdefault(c, set()).add(d)
            # weak cycle?
            wg = {k: sorted(weak.get(k, ())) for k in comp}
            def cyc():
                color = {}
                def dfs(v):
                    color[v] = 1
                    for y in wg[v]:
                        if color.get(y) == 1: return (v, y)
                        if y not in color:
                            r = dfs(y)
                            if r: return r
                    color[v] = 2
                for k in comp:
                    if k not in color:
                        r = dfs(k)
                        if r: return r
            z = cyc()
            if z: bad.append((z[0], z[1], '', 'a cycle of calls leaves the counter unchanged'))
            # bounds
            bound = levels = None
            if not bad:
                vals = [m[pm[d]] for d, s, m in ENT]
                if any(v is None for v in vals): bad.append((comp[0], comp[0], '', 'unknown initial counter'))
                else:
                    if di == 0:
                        lo = min([v[0] for v in vals] or [0]); hi = max([m[(pm[c], pm[d])][2][1] for c, d, s, m in E if m[(pm[c], pm[d])][0] == 2] or [lo])
                    else:
                        hi = max([v[1] for v in vals] or [0]); lo = min([m[(pm[c], pm[d])][2][0] for c, d, s, m in E if m[(pm[c], pm[d])][1] == 2] or [hi])
                    bound = hi - lo
                    W = {}
                    for c, d, s, m in E:
                        q = m[(pm[c], pm[d])]; W[(c, d)] = max(W.get((c, d), 0), (q[3][1] if di == 0 else -q[3][0]) if q[3] else 1 << 64)
                    reach_ = bound if not vals else hi - max(v[1] for v in vals) if di == 0 else min(v[0] for v in vals) - lo
                    levels = reach_ // max(heaviest(W), 1)
                    if bound > limit: bad.append((comp[0], comp[0], '', 'the counter is only bounded by %d levels' % bound))
            r = (len(bad), bad, pm, di, bound, levels)
            if best is None or (r[0], -(levels or 0)) < (best[0], -(best[5] or 0)): best = r
    if best is None:
        best = (1, [(c, d, s, 'no integer argument') for c, d, s, m in E], None, 0, None, None)
    for c, d, site, m in E:
        b = [x for x in best[1] if x[0] == c and x[1] == d and x[2] in (site, '')]
        ctx.ob(not b, rule, '%s->%s' % (P.insts[c].defn, P.insts[d].defn), 'recursive call without a bound: %s (cycle %s)' % (b[0][3] if b else '', names), '%s, called in %s' % (P.insts[d].name, site))
    if best[1]:
        for c, d, s, why in best[1]: ctx.ob(False, rule, '%s->%s' % (P.insts[c].defn, P.insts[d].defn), 'recursive call without a bound: %s (cycle %s)' % (why, names), '%s, called in %s' % (P.insts[d].name, s))
    else:
        ctx.sample('cycle %s: counter argument %s moves %s, at most %s levels, at least %s' % (names, best[2], ('up', 'down')[best[3]], best[4], best[5]))
        for k in comp[:1]: ctx.ob(best[5] is not None and best[5] >= MINDEPTH, rule + ' depth', P.insts[k].defn, 'values nested less than %d levels deep may be refused for their nesting: the counter allows only %s levels (cycle %s)' % (MINDEPTH, best[5], names), P.insts[k].name)
def cycles(ctx, P, roots, rule, cut=cutfor, limit=MAXDEPTH):
    """every call cycle carries an integer argument that strictly moves towards a constant bound"""
    RC = RecCut(P, reach(P, [i.id for _, i in roots]))
    edges = {}     # (caller id or None, callee id, site) -> list of measurements
    cur = [None]
    def oncall(I, st, inst, args, dty, x):
        k = cur[0]
        F = st.F
        w = I.where(st)
        if k is None:
            m = [F.rng(F.norm(a[1])) if a[0] == 'i' else None for a in args]
            edges.setdefault((None, inst.id, w.inst.name), []).append(m)
        else:
            m = {}
            for i, a in enumerate(I.args0):
                if a[0] != 'i': continue
                for j, b in enumerate(args):
                    if b[0] != 'i': continue
                    d = F.norm(lsub(b[1], a[1]))
                    up = 2 if F.prove_ge(laddc(d, -1)) else 1 if F.prove_ge(d) else 0
                    dn = 2 if F.prove_ge(laddc(lneg(d), -1)) else 1 if F.prove_ge(lneg(d)) else 0
                    m[(i, j)] = (up, dn, F.rng(F.norm(b[1])), F.rng(d))
            if not I.quiet: edges.setdefault((k, inst.id, w.inst.name), []).append(m)
        return None
    RC.oncall = oncall
    for label, inst in roots:
        if not inst.body: continue
        RC.hook = cut(label); proto._memo.clear(); cur[0] = None
        ctx.run(P, inst, hook=RC)
        ctx.ob(True, 'entry point', label)
    # the cycles are measured with unconstrained arguments first; ranges only for entries
    done = set()
    work = sorted(RC.members)
    for k in work:
        if k not in RC.ctxt: continue
    seen = set()
    n = 0
    while True:
        todo = [k for k in sorted(RC.ctxt) if k not in seen]
        if not todo: break
        k = todo[0]; seen.add(k); n += 1
        cur[0] = k; RC.hook = recmode(P, k)
        ctx.run(P, P.insts[k], hook=RC)
    for comp in sccs(P, RC.members):
        comp = [k for k in comp if k in RC.ctxt]
        if not comp: continue
        E = [(c, d, s, m) for (c, d, s), ms in edges.items() if c in comp and d in comp for m in ms]
        ENT = [(d, s, m) for (c, d, s), ms in edges.items() if (c is None or c not in comp) and d in comp for m in ms]
        pos = {k: [i for i, t in enumerate(P.insts[k].locals[1:P.insts[k].argc + 1]) if P.types[t]['k'] == 'int'] for k in comp}
        counters(ctx, P, comp, E, ENT, pos, rule, limit)
    ctx.ob(True, 'call graph', 'cycles', '')
    ctx.extra['functions_in_call_graph'] = len(reach(P, [i.id for _, i in roots]))
    ctx.extra['cycles'] = [[P.insts[k].name for k in c] for c in sccs(P, RC.members)]
    return RC

@check('C02', 'proof', 'strongly connected components of the monomorphic call graph reachable from every decode and skip entry point: each call inside a component is shown to move an integer argument strictly towards a constant bound (at most %d levels), no weak cycle, entry values bounded' % MAXDEPTH,
       'call-graph cycles plus ranking argument entailed at every recursive call site',
       'Sound bound on call depth for all inputs within the trusted base; covers the skip functions and the bundled Parquet types (user-defined recursive types are outside the statement).',
       floors={'entry point': 420})
def c02(ctx):
    P = ctx.lib
    cycles(ctx, P, decode_roots(P), 'recursive call')

# ---------------------------------------------------------------- C24
CONSUME = {'read_byte', 'read_len', 'read_i16', 'read_i32', 'read_i64', 'read_double', 'read_binary', 'read_string', 'skip_integer', 'skip_binary', 'read_field_header'}
def interrupted(I, st):
    """the last operation failed because it was interrupted, and is tried again"""
    e = st.mem.get(('g', 'lasterr'))
    if e is None or e[0] != 'top': return False
    v = st.ch.get(('kind', e[2]))
    if v is None: return False
    for t in I.P.types:
        if t['k'] == 'adt' and t.get('name') == 'std::io::ErrorKind': return t['variants'][v]['name'] == 'Interrupted'
    return False
@check('C24', 'proof', 'per loop of every function reached from a decode or skip entry point: on each feasible path around the loop either at least one input byte was consumed (successful read event, advanced slice, nested decode) or the iteration count is entailed to be at most a small constant or the length of a slice already in memory; every decode of a value that succeeds consumes at least one byte',
       'typestate (progress monitor) per loop iteration over abstract states, with summaries for recursive functions',
       'Sound for all finite inputs within the trusted base (partial: termination of user supplied readers is assumed).',
       floors={'entry point': 420})
def c24(ctx):
    P = ctx.lib
    R = Roots(P)
    summ = {}     # (inst id, key) -> consumes at least one byte on success
    keys_seen = {}
    def keyof(I, st, args):
        k = []
        for v in args:
            if v[0] == 'b':
                e = st.F.rb(v[1]); k.append(e if e in (0, 1) else '*')
            elif v[0] == 'i':
                c = st.F.const(v[1]); k.append(c if c is not None and I.P.types is not None and v[2] == 8 else '*')
            else: k.append('*')
        return tuple(k)
    class M:
        def event(s, I, st, name, outcome, args, ret, extra):
            if outcome not in ('ok', 'Ok'): return
            if isinstance(name, tuple):
                k, m = name
                if k == 'in' and m in CONSUME or k == 'fill': s.got(st)
                if k == 'call' and s.last: 
                    if summ.setdefault(s.last, True): s.got(st)
            elif name in ('read_exact', 'read'):
                n = args[0]
                if n is not None and st.F.prove_ge(laddc(n, -1)): s.got(st)
        last = None
        def got(s, st):
            st.mon['any'] = 1
            for k in st.mon:
                if isinstance(k, str) and k[0] == '@': st.mon[k] = 1
        def exit(s, I, st, val): pass
    def slval(I, st):
        v = I.args0[0] if I.args0 else None
        if v is None or v[0] != 'p': return None
        q = I.read(st, v[1], v[2])
        if q[0] in ('agg', 'top') and q[1] is not None and P.types[q[1]].get('name', '').endswith('CompactThriftInputSlice'):
            w = I.sub(st, q, ('f', 0))
            return w if w[0] == 'sl' else None
        return None
    def mk(collecting):
        def setup(I):
            def on_loop(I, st, part):
                st.mon['@%d.%d.%d' % (len(st.frames), st.frames[-1].inst.id, st.frames[-1].bb)] = 0
                part.start = slval(I, st)
            def on_back(I, part, B):
                if not collecting: return
                w = I.where(B); ok = interrupted(I, B) or B.mon.get('@%d.%d.%d' % (len(B.frames), B.frames[-1].inst.id, B.frames[-1].bb)) == 1
                F = B.F
                if not ok and part.start is not None:
                    e = slval(I, B)
                    ok = e is not None and e[1] == part.start[1] and F.prove_ge(laddc(lsub(e[3], part.start[3]), -1))
                if not ok:
                    ks = [v[1] for k, v in B.mem.items() if k[0] == 'g' and k[1] == 'iter']
                    # the innermost counter is the one of this loop
                    fr = B.frames[-1]
                    kk = B.mem.get(('g', 'iter', fr.id, fr.bb))
                    cand = [kk[1]] if kk else []
                    for c in cand:
                        if F.prove_ge(laddc(lneg(c), 256)): ok = True
                        for v in list(B.mem.values()):
                            q = None
                            if v[0] == 'sl': q = lsub(v[4], v[3])
                            elif v[0] == 'vec': q = v[2]
                            elif v[0] == 'it': q = lsub(v[4], v[3])
                            if q is not None and F.prove_ge(lsub(q, c)): ok = True; break
                        for k in B.mem:
                            if k[0] == 'obj' and k[2] == 'seq': 
                                if F.prove_ge(lsub(I.seqlen(k[1], k[3]), c)): ok = True
                        if not ok and part.start is not None and F.prove_ge(lsub(lsub(part.start[4], part.start[3]), c)): ok = True
                        if not ok:
                            for sy in F.norm(c)[1]: pass
                            # argument slices
                            for a in I.args0:
                                if a[0] == 'sl' and F.prove_ge(lsub(lsub(a[4], a[3]), c)): ok = True
                                if a[0] == 'p':
                                    q = slval(I, B)
                                    if q is not None and F.prove_ge(lsub(I.seqlen(q[1][1], q[1][3]), c) if q[1][0] == 'obj' else lneg(ONE)): ok = True
                ctx.ob(ok, 'loop iteration', '%s' % w.inst.defn, 'an iteration consumes no input and is not bounded: %s' % tracestr(B), w.inst.name)
            I.on_loop = on_loop; I.on_back = on_back
        return setup
    RC = RecCut(P, reach(P, [i.id for _, i in decode_roots(P)]))
    work = {}
    mon = M()
    def oncall(I, st, inst, args, dty, x):
        k = (inst.id, keyof(I, st, args)); mon.last = k
        work.setdefault(k, False)
        fr = st.frames[-1]
        r = result_outcomes(I, st, fr, inst.defn, args, dty, x, [I.op_ty(fr, o) for o in x['args']])
        mon.last = None
        return r
    RC.oncall = oncall
    def cut(label):
        if label.startswith('a_'): return proto.Cut('P')
        return proto.Cut('Q')
    MUST = ('fill_thrift', 'read_thrift')
    def consumed(I, st):
        if st.mon.get('any'): return True
        a = slval(I, st)
        return a is not None and a[1][0] == 'obj' and 'arg' in a[1][1] and st.F.prove_ge(laddc(a[3], -1))
    def final(I, label, must):
        for st, v in I.exits:
            if proto.isok(I, v) and must:
                ctx.ob(consumed(I, st), 'value consumes input', label, 'a successful decode consumes no input; %s' % tracestr(st), label)
    def fixpoint():
        done = set()
        for rnd in range(60):
            ch = False
            for k in list(work):
                done.add(k)
                if not summ.setdefault(k, True): continue
                q = Ctx(ctx.id, ctx.tier, ctx.seed)
                I = runrec(q, k, mk(False))
                ok = I is not None and all(consumed(I, st) for st, v in I.exits if proto.isok(I, v) is not False)
                if not ok: summ[k] = False; ch = True
            if not ch and all(k in done for k in work): return
        ctx.undecided('summaries', 'no fixpoint was reached')
    def runrec(c, k, setup):
        def args(I, st, a):
            out = []
            for v, x in zip(a, k[1]):
                if x != '*' and v[0] == 'b': v = ('b', x)
                elif x != '*' and v[0] == 'i': st.F.assume_eq(laddc(v[1], -x))
                out.append(v)
            return out
        RC.hook = recmode(P, k[0])
        return c.run(P, P.insts[k[0]], hook=RC, monitors=[mon], args=args, setup=setup)
    # discover contexts, then solve, then judge
    roots = decode_roots(P)
    recroots = [(l, i) for l, i in roots if reach(P, [i.id]) & RC.members]
    for l, i in recroots:
        RC.hook = cut(l); proto._memo.clear()
        Ctx(ctx.id, ctx.tier, ctx.seed).run(P, i, hook=RC, monitors=[mon], setup=mk(False))
    fixpoint()
    for l, i in roots:
        RC.hook = cut(l); proto._memo.clear()
        I = ctx.run(P, i, hook=RC, monitors=[mon], setup=mk(True))
        if I:
            b = l.split('::')[-1]
            must = ('/fill_thrift/' in l or '/read_thrift/' in l) or (isprim(l) and b[2:] != 'skip_field')
            final(I, l, must)
            ctx.ob(True, 'entry point', l)
    for k in sorted(work, key=str): runrec(ctx, k, mk(True))
    ctx.extra['recursive_summaries'] = ['%s%s: %s' % (P.insts[k[0]].name, k[1], 'consumes' if v else 'may consume nothing') for k, v in summ.items()]
