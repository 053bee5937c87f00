"""C10: skipping follows the grammar of the compact protocol."""
import fw, proto
from fw import *
from dom import *
from checks import check
from c_wire import bitsof, canbe, empty
from c_coll import ilin
MAXE = 10_000_000
INTS = ('skip_integer', 'read_i16', 'read_i32', 'read_i64', 'read_len', 'varint')
BINS = ('skip_binary', 'read_binary')

def codes(F, t):
    """the type codes t can have under the facts; 16 stands for every larger value"""
    t = F.norm(t); lo, hi = F.rng(t)
    def may(f):
        G = F.copy()
        return f(G) and not G.dead and not empty(G)
    r = {v for v in range(max(lo, 0), min(hi, 15) + 1) if may(lambda G: G.assume_eq(laddc(t, -v)))}
    if hi > 15 and may(lambda G: G.assume_ge(laddc(t, -16))): r.add(16)
    return r

class Skip:
    """push-down automaton of the grammar, run in product with the abstract states.
    frames: V0/V1 a value outside/inside a collection (ghost t: its type code), CB a collection header byte was read (t: the byte),
    E elements (t type, n count, k done), MB a map count was read (n), P0/P1 pairs (t, u types, n, k; key/value next), S fields of a struct"""
    def __init__(s, ctx, lab, roles, start, typeargs): s.ctx = ctx; s.lab = lab; s.roles = roles; s.start = start; s.typeargs = typeargs; s.cur = None; s.rules = {}
    def init(s, I, st, a):
        stk, gh = s.start(I, st, a)
        st.mon['stk'] = tuple(stk)
        for (nm, d), l in gh.items(): st.mem[('g', nm, d)] = ('i', l, 64, False)
    # ---- ghosts
    def g(s, st, nm, d): return st.mem[('g', nm, d)][1]
    def setg(s, st, nm, d, l): st.mem[('g', nm, d)] = ('i', st.F.norm(l), 64, False)
    def pop(s, st):
        d = len(st.mon['stk']) - 1
        for nm in 'tunk': st.mem.pop(('g', nm, d), None)
        st.mon['stk'] = st.mon['stk'][:-1]
    def push(s, st, f, **gh):
        d = len(st.mon['stk'])
        st.mon['stk'] = st.mon['stk'] + (f,)
        for nm, l in gh.items(): s.setg(st, nm, d, l)
    def top(s, st, f): st.mon['stk'] = st.mon['stk'][:-1] + (f,)
    def within(s, st, t, lo, hi):
        if st.F.prove_ge(laddc(t, -lo)) and st.F.prove_ge(laddc(lneg(t), hi)): return True
        return not codes(st.F, t) - set(range(lo, hi + 1))
    def settle(s, I, st, ev=None):
        F = st.F
        while st.mon['stk']:
            k = st.mon['stk']; d = len(k) - 1; f = k[-1]
            if f == 'V0' and s.within(st, s.g(st, 't', d), 1, 2): s.pop(st)
            elif f == 'V0' and d and k[-2] == 'S' and F.prove_eq(s.g(st, 't', d), ZERO): s.pop(st); s.pop(st)
            elif f == 'CB':
                if ev == 'read_len' or 15 in codes(F, s.g(st, 'n', d)): return
                s.top(st, 'E')
            elif f == 'MB' and F.prove_eq(s.g(st, 'n', d), ZERO): s.pop(st)
            elif f in ('E', 'P0') and F.prove_eq(s.g(st, 'k', d), s.g(st, 'n', d)): s.pop(st)
            else: return
    def begin(s, I, st):
        """starts the next element, key or value; None when nothing may follow"""
        k = st.mon['stk']; d = len(k) - 1
        if not k: return 'the value is complete'
        f = k[-1]; F = st.F
        if f in ('E', 'P0') and not F.prove_ge(laddc(lsub(s.g(st, 'n', d), s.g(st, 'k', d)), -1)): return 'the count of the header may be exceeded'
        if f == 'E':
            s.setg(st, 'k', d, laddc(s.g(st, 'k', d), 1)); s.push(st, 'V1', t=s.g(st, 't', d))
        elif f == 'P0': s.top(st, 'P1'); s.push(st, 'V1', t=s.g(st, 't', d))
        elif f == 'P1': s.top(st, 'P0'); s.setg(st, 'k', d, laddc(s.g(st, 'k', d), 1)); s.push(st, 'V1', t=s.g(st, 'u', d))
        return None
    def bad(s, I, st, rule, msg):
        st.mon['bad'] = 1
        if not I.quiet: s.ctx.ob(False, rule, s.lab, '%s; grammar state %s; events %s' % (msg, ' '.join(st.mon['stk']), tracestr(st)), I.where(st).inst.name)
    def good(s, I, rule):
        if not I.quiet: s.ctx.ob(True, rule, s.lab)
    def event(s, I, st, name, outcome, args, ret, extra):
        if not isinstance(name, tuple) or st.mon.get('bad'): return
        kind, m = name
        if outcome != 'ok': st.mon['failed'] = 1; return
        F = st.F
        s.settle(I, st, m)
        k = st.mon['stk']
        if k and k[-1] in ('E', 'P0', 'P1'):
            e = s.begin(I, st)
            if e: s.bad(I, st, 'operation', '%s where %s' % (m, e)); return
            k = st.mon['stk']
        if not k: s.bad(I, st, 'operation', '%s after the value is complete' % m); return
        d = len(k) - 1; f = k[-1]
        if kind == 'call': return s.call(I, st, args, f, d)
        if kind != 'in': s.bad(I, st, 'operation', 'unexpected operation %s' % m); return
        r = ilin(ret)
        if f in ('V0', 'V1'):
            t = s.g(st, 't', d); w = lambda lo, hi: s.within(st, t, lo, hi)
            if m == 'skip_field':
                a = ilin(args[1])
                ok = a is not None and F.prove_eq(a, t) and (f == 'V0' or w(3, 12)) and s.notstop(st, k, t)
                if ok: s.pop(st)
            elif m == 'read_byte' and (w(3, 3) or f == 'V1' and w(1, 3)): ok = True; s.pop(st)
            elif m == 'read_byte': 
                ok = w(9, 10)
                if ok: s.top(st, 'CB'); x = bitsof(F, r, 8); s.setg(st, 't', d, F.from_bits(x[:4], 0)); s.setg(st, 'n', d, F.from_bits(x[4:], 0)); s.setg(st, 'k', d, ZERO)
            elif m in INTS and w(4, 6): ok = True; s.pop(st)
            elif m == 'read_len': 
                ok = w(11, 11)
                if ok: s.top(st, 'MB'); s.setg(st, 'n', d, r)
            elif m == 'read_double': 
                ok = w(7, 7)
                if ok: s.pop(st)
            elif m in BINS:
                ok = w(8, 8)
                if ok: s.pop(st)
            elif m == 'read_field_header':
                ok = w(12, 12)
                if ok: s.pop(st); s.push(st, 'S'); s.push(st, 'V0', t=r)
            else: ok = False
            if not ok: s.bad(I, st, 'operation', '%s for a value whose type code is %s' % (m, F.rng(F.norm(t)))); return
            return s.good(I, 'operation')
        if f == 'S' and m == 'read_field_header': s.push(st, 'V0', t=r); return s.good(I, 'operation')
        if f == 'CB' and m == 'read_len':
            if codes(F, s.g(st, 'n', d)) == {15}:
                s.top(st, 'E'); s.setg(st, 'n', d, r)
                return s.good(I, 'operation')
        if f == 'MB' and m == 'read_byte' and F.prove_ge(laddc(s.g(st, 'n', d), -1)):
            x = bitsof(F, r, 8)
            s.top(st, 'P0'); s.setg(st, 'u', d, F.from_bits(x[:4], 0)); s.setg(st, 't', d, F.from_bits(x[4:], 0)); s.setg(st, 'k', d, ZERO)
            return s.good(I, 'operation')
        s.bad(I, st, 'operation', 'unexpected %s' % m)
    def notstop(s, st, k, t): return not (len(k) > 1 and k[-1] == 'V0' and k[-2] == 'S') or st.F.prove_ne(t, ZERO)
    def call(s, I, st, args, f, d):
        F = st.F; k = st.mon['stk']
        for role in s.roles.get(s.cur.id, ()):
            if role[0] == 'V' and f in ('V0', 'V1'):
                t = s.g(st, 't', d)
                a = ilin(args[role[1]])
                c = role[2] if isinstance(role[2], bool) else None
                if c is None:
                    b = F.rb(args[role[2][1]][1])
                    if b not in (0, 1): continue
                    c = bool(b) != role[2][0]
                # outside and inside differ for booleans only
                if a is not None and F.prove_eq(a, t) and (c == (f == 'V1') or s.within(st, t, 3, 12)) and s.notstop(st, k, t):
                    s.pop(st); return s.good(I, 'operation')
            if role[0] == 'K' and f in ('V0', 'V1'):
                t = s.g(st, 't', d)
                if s.within(st, t, *role[1]): s.pop(st); return s.good(I, 'operation')
        # helpers that skip all elements or pairs at once: the element just begun is taken back
        if f == 'V1' and len(k) > 1 and k[-2] in ('E', 'P1'):
            p = d - 1
            for role in s.roles.get(s.cur.id, ()):
                if role[0] == 'E' and k[-2] == 'E' and F.prove_eq(ilin(args[role[1]]), s.g(st, 't', p)) and F.prove_eq(ilin(args[role[2]]), s.g(st, 'n', p)) and F.prove_eq(s.g(st, 'k', p), ONE):
                    s.pop(st); s.pop(st); return s.good(I, 'operation')
                if role[0] == 'P' and k[-2] == 'P1' and F.prove_eq(ilin(args[role[1]]), s.g(st, 't', p)) and F.prove_eq(ilin(args[role[2]]), s.g(st, 'u', p)) and F.prove_eq(ilin(args[role[3]]), s.g(st, 'n', p)) and F.prove_eq(s.g(st, 'k', p), ZERO):
                    s.pop(st); s.pop(st); return s.good(I, 'operation')
        s.bad(I, st, 'operation', 'call of %s%s for a value of type %s' % (s.cur.defn.split('::')[-1], tuple(lstr(F.norm(a[1])) if a[0] == 'i' else '_' for a in args[1:]), F.rng(F.norm(s.g(st, 't', d))) if ('g', 't', d) in st.mem else '?'))
    def exit(s, I, st, val):
        if I.quiet or st.mon.get('bad'): return
        F = st.F; ok = proto.isok(I, val)
        if ok is False:
            if st.mon.get('failed'): return
            s.ctx.ob(s.refusal(I, st), 'refusal', s.lab, 'a value may be refused with %s although its type code is valid; grammar state %s; events %s' % (proto.errname(I, st, val), ' '.join(st.mon['stk']), tracestr(st)), I.where(st).inst.name)
            return
        s.settle(I, st)
        s.ctx.ob(not st.mon.get('failed') and not st.mon['stk'], 'complete', s.lab, 'success although the value is not complete (grammar state %s%s); events %s' % (' '.join(st.mon['stk']), ', type %s' % (F.rng(F.norm(s.g(st, 't', len(st.mon['stk']) - 1))),) if st.mon['stk'] and ('g', 't', len(st.mon['stk']) - 1) in st.mem else '', tracestr(st)), I.where(st).inst.name)
    def refusal(s, I, st):
        F = st.F; k = st.mon['stk']
        for i, a in enumerate(I.args0):
            if i not in s.typeargs and a[0] == 'i' and F.const(F.norm(a[1])) is not None: return True     # a depth limit
        s.settle(I, st)
        k = st.mon['stk']
        if not k: return False
        d = len(k) - 1; f = k[-1]
        inv = lambda t: not codes(F, t) & set(range(1, 13))
        if f in ('V0', 'V1'):
            t = s.g(st, 't', d)
            return inv(t) and (s.notstop(st, k, t) or f == 'V1')
        big = lambda n: F.prove_ge(laddc(n, -MAXE - 1))
        if f == 'E': return inv(s.g(st, 't', d)) or big(s.g(st, 'n', d))
        if f == 'MB': return big(s.g(st, 'n', d))
        if f == 'P0': return inv(s.g(st, 't', d)) or inv(s.g(st, 'u', d)) or big(s.g(st, 'n', d))
        if f == 'CB': return inv(s.g(st, 't', d))
        return False

def starts(role, flag):
    """initial grammar state of a function in a role"""
    def f(I, st, a):
        if role[0] == 'V':
            c = role[2] if isinstance(role[2], bool) else flag != role[2][0]
            return ['V1' if c else 'V0'], {('t', 0): ilin(a[role[1]])}
        if role[0] == 'K':
            z = lv(fresh('tc', 8, False, *role[1]))
            return ['V1'], {('t', 0): z}
        if role[0] == 'E': return ['E'], {('t', 0): ilin(a[role[1]]), ('n', 0): ilin(a[role[2]]), ('k', 0): ZERO}
        return ['P0'], {('t', 0): ilin(a[role[1]]), ('u', 0): ilin(a[role[2]]), ('n', 0): ilin(a[role[3]]), ('k', 0): ZERO}
    return f
def candidates(P, inst):
    T = [P.types[inst.locals[i + 1]] for i in range(inst.argc)]
    u8 = [i for i, t in enumerate(T) if t['k'] == 'int' and t['bits'] == 8]
    ns = [i for i, t in enumerate(T) if t['k'] == 'int' and t['bits'] > 16]
    bs = [i for i, t in enumerate(T) if t['k'] == 'bool']
    cs = [True, False] + [(neg, b) for b in bs for neg in (False, True)]
    out = [('V', i, c) for i in u8 for c in cs]
    out += [('K', r) for r in ((9, 10), (11, 11), (12, 12))]
    out += [('E', i, n) for i in u8 for n in ns] + [('P', i, j, n) for i in u8 for j in u8 if i != j for n in ns]
    return out

@check('C10', 'proof', 'push-down automaton of the compact protocol grammar run in product with the abstract states of the skip functions: each primitive operation is the one the type code demands (type class entailed), elements and pairs are counted by ghosts against the header, struct fields run to the stop header; functions in the call cycle are verified against the grammar roles they are used in (greatest fixpoint)',
       'typestate analysis with a push-down grammar automaton, ghost counters and inductive roles for recursive functions',
       'Sound for all inputs, type codes and nesting within the trusted base; a constant (depth) argument may also refuse a value.',
       floors={'entry point': 3, 'operation': 30, 'complete': 10, 'refusal': 4})
def c10(ctx):
    P = ctx.lib; R = Roots(P)
    roots = [(n, R.fn[n]) for n in ('s_skip_field', 'r_skip_field', 'a_skip_field')]
    RC = RecCut(P, reach(P, [i.id for _, i in roots]))
    def run(c, inst, lab, start, typeargs, flag=None, fargs=(), cut=None):
        M = Skip(c, lab, roles, start, typeargs)
        def oncall(I, st, callee, args, dty, x):
            M.cur = callee; fr = st.frames[-1]
            return result_outcomes(I, st, fr, callee.defn, args, dty, x, [I.op_ty(fr, o) for o in x['args']])
        RC.oncall = oncall; RC.hook = cut; proto._memo.clear()
        def args(I, st, a):
            if flag is None: return a
            return [('b', int(flag)) if i in fargs else v for i, v in enumerate(a)]
        return c.run(P, inst, hook=RC, monitors=[M], args=args, before=M.init)
    roles = {k: candidates(P, P.insts[k]) for k in RC.members}
    def holds(c, k, role):
        inst = P.insts[k]
        flags = [None] if role[0] != 'V' or isinstance(role[2], bool) else [False, True]
        for fl in flags:
            ta = set(role[1:]) if role[0] != 'K' else set()
            ta = {x for x in ta if isinstance(x, int) and not isinstance(x, bool)}
            if not run(c, inst, '%s as %s' % (inst.name, (role,)), starts(role, fl), ta, fl, (role[2][1],) if fl is not None else (), proto.Cut('Q', keep=[k])): return False
            if c.viols: return False
        return True
    lost = {}
    for rnd in range(40):
        ch = False
        for k in sorted(roles):
            for role in list(roles[k]):
                q = Ctx(ctx.id, ctx.tier, ctx.seed)
                if not holds(q, k, role):
                    roles[k].remove(role); ch = True
                    lost.setdefault(k, []).append((role, rnd, list(q.viols.values())[:1]))
        if not ch: break
    else: ctx.undecided('roles', 'no fixpoint')
    for k in sorted(roles):
        for role in roles[k]: holds(ctx, k, role)
    ctx.extra['roles'] = {P.insts[k].name: [str(r) for r in v] for k, v in roles.items()}
    for lab, inst in roots:
        I = run(ctx, inst, lab, lambda I, st, a: (['V0'], {('t', 0): ilin(a[1])}), {1}, cut=proto.Cut('Q'))
        if I: ctx.ob(True, 'entry point', lab)
    if ctx.viols:
        for k, v in lost.items():
            if not roles[k]:
                # the role that survived longest says why
                r = max(v, key=lambda x: x[1])
                for x in r[2]: ctx.viol('role', '%s as %s' % (P.insts[k].name, (r[0],)), x['msg'], x['where'])
