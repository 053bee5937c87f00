"""C25, C26: the conversion of the flat schema into a tree."""
import re, itertools
import fw, proto, models, interp, joins
from fw import *
from dom import *
from checks import check
from c_scan import collect, PANICKY, counters, MAXDEPTH

CR = 'schema::'
def tyname(P, t): return P.types[t].get('name', '') if P.types[t]['k'] == 'adt' else ''
def isfield(P, t): return tyname(P, t).endswith('::SchemaField')
def iselem(P, t): return tyname(P, t).endswith('::SchemaElement')
def elemslice(P, t):
    T = P.types[t]
    if T['k'] in ('ref', 'ptr'):
        E = P.types[T['to']]
        return E['k'] == 'slice' and iselem(P, E['elem'])
    return False
def elemiter(P, t): return tyname(P, t).endswith('slice::Iter') and any(isinstance(a, int) and iselem(P, a) for a in P.types[t].get('args', []))
def mentions(P, t, pred, depth=0):
    """does a type contain a part that satisfies pred (not through the members of nominal types of the library)"""
    if pred(P, t): return True
    if depth > 6: return False
    T = P.types[t]; k = T['k']
    if k in ('ref', 'ptr'): return mentions(P, T['to'], pred, depth + 1)
    if k in ('slice', 'array'): return mentions(P, T['elem'], pred, depth + 1)
    if k == 'tuple': return any(mentions(P, e, pred, depth + 1) for e in T['elems'])
    if k == 'adt':
        if any(isinstance(a, int) and mentions(P, a, pred, depth + 1) for a in T.get('args', [])): return True
        if CR in T['name'] and T['kind'] == 'struct': return any(mentions(P, f, pred, depth + 1) for f in P.fields(t))
    return False
def hasmut(P, t): return mentions(P, t, lambda P, u: P.types[u]['k'] in ('ref', 'ptr') and bool(P.types[u].get('mut')))
def schemafns(P): return [i for i in P.insts if i.user and i.body and CR in i.name]
def okpayload(P, t):
    """type of the success payload of a Result"""
    T = P.types[t]
    if T['k'] == 'adt' and T['name'].endswith('result::Result'):
        for v in T['variants']:
            if v['name'] == 'Ok': return v['fields'][0][1]
def roots(P):
    """conversions: everything that takes the list of elements alone and returns a tree"""
    out = []
    for i in schemafns(P):
        ret = okpayload(P, i.locals[0])
        if i.argc == 1 and ret is not None and isfield(P, ret) and mentions(P, i.locals[1], iselem): out.append(i)
    return out

# ---------------------------------------------------------------- summaries of helpers
class Summ:
    """helpers that only compute a value from values are analysed on their own, from arbitrary arguments; where they
    are called their result is any value"""
    def __init__(s, ctx, P, only=None):
        s.P = P; s.ctx = ctx
        s.ids = set()
        for i in schemafns(P):
            ts = [i.locals[k] for k in range(i.argc + 1)]
            if '{closure' in i.name: continue
            if any(hasmut(P, t) or mentions(P, t, elemslice) or mentions(P, t, elemiter) or mentions(P, t, isfield) or mentions(P, t, iselem) for t in ts): continue
            s.ids.add(i.id)
        if only: s.ids = {k for k in s.ids if only(P, P.insts[k].locals[0])}
        # a helper that may panic for some arguments is analysed where it is called
        for k in sorted(s.ids & reach(P, [i.id for i in roots(P)])):
            q = Ctx(ctx.id, ctx.tier, ctx.seed); q.dir = ctx.dir
            I = q.run(P, P.insts[k], hook=lambda I, st, inst, args, dty, x: s(I, st, inst, args, dty, x) if inst.id != k else None)
            if not I or any(sk[0] == 'panic' and bad for sk, (n, bad) in I.obs.items()) or any(PANICKY.search(n) for n in I.opaque): s.ids.discard(k)
            else:
                collect(ctx, I, P.insts[k].defn, ('panic',), 'panic site'); ctx.count(P, I)
                ctx.ob(True, 'helper', P.insts[k].defn)
    def __call__(s, I, st, inst, args, dty, x):
        if inst.id in s.ids: return [(st, I.mk_top(dty, I.origin('helper')))]

# ---------------------------------------------------------------- contracts of the recursive functions
def leaves(P, t, depth=0):
    """paths to the integers and element windows inside a type"""
    T = P.types[t]; k = T['k']
    if k == 'int': yield (), 'int'
    elif elemslice(P, t): yield (), 'win'
    elif elemiter(P, t): yield (), 'win'
    elif k == 'tuple' or k == 'adt' and T['kind'] == 'struct' and CR in T['name'] and depth < 3:
        for j, f in enumerate(P.fields(t)):
            for p, q in leaves(P, f, depth + 1): yield (('f', j),) + p, q
    elif k == 'adt' and T['name'].endswith('vec::Vec') and isfield(P, T['args'][0]): yield (), 'vec'
def winof(I, st, v):
    if v[0] == 'it': return v[1], v[2], v[3], v[4]
    sl = models.as_slice(I, st, v) if v[0] in ('sl', 'p') else None
    return (sl[1], sl[2], sl[3], sl[4]) if sl else None
def inputs(I, st, inst, args):
    """{key: term} of the integers and windows in the arguments and behind mutable references"""
    P = I.P; out = {}
    for k, v in enumerate(args):
        t = inst.locals[k + 1]; T = P.types[t]
        if T['k'] == 'ref' and T['mut'] and not elemslice(P, t):
            if v[0] not in ('p', 'top'): continue
            o, pa, _ = I.deref(st, v); v = ('p', o, pa)
            for p, q in leaves(P, T['to']): out[('m', k) + p] = (q, I.read(st, v[1], v[2] + p), (v[1], v[2] + p))
        elif elemslice(P, t): out[('a', k)] = ('win', v, None)
        else:
            for p, q in leaves(P, t):
                x = v
                for e in p: x = I.sub(st, x, e)
                out[('a', k) + p] = (q, x, None)
    for j, g in enumerate(getattr(I, 'ghosts', ())): out[('m', -1 - j)] = ('int', I.read(st, ('g', g), ()), (('g', g), ()))
    return out
def value(I, st, x):
    q, v, _ = x
    if v[0] == 'top': v = I.force(st, v)
    if q == 'int': return v[1] if v[0] == 'i' else None
    if q == 'win': return winof(I, st, v)
    if q == 'vec': return v[2] if v[0] == 'vec' else None
class Contract:
    def __init__(s): s.pre = None; s.post = None
class Contracts:
    """relations between the arguments of recursive functions, and between their arguments and results, kept only
    while every call and every return satisfies them"""
    def __init__(s, P, members): s.P = P; s.c = {k: Contract() for k in members}; s.changed = False; s.atroot = False
    def precands(s, vals):
        ints = [(k, v) for k, (q, v) in vals.items() if q == 'int' and v is not None]; wins = [k for k, (q, v) in vals.items() if q == 'win' and v is not None]
        return {('le', a, b) for (a, _), (b, _) in itertools.permutations(ints, 2)} | {('sum', a, w) for a, _ in ints for w in wins} | {('some', w) for w in wins}
    def pre(s, F, cd, vals):
        """the relation as a term that is at least 0"""
        g = lambda k: vals[k][1]
        if cd[0] == 'le': return lsub(g(cd[2]), g(cd[1]))
        if cd[0] == 'sum': w = g(cd[2]); return laddc(lneg(ladd(g(cd[1]), lsub(w[3], w[2]))), (1 << 64) - 1)
        if cd[0] == 'some': w = g(cd[1]); return laddc(lsub(w[3], w[2]), -1)
    def terms(s, I, st, inst, args): return {k: (x[0], value(I, st, x)) for k, x in inputs(I, st, inst, args).items()}
    def checkpre(s, I, st, inst, args):
        C = s.c[inst.id]; vals = s.terms(I, st, inst, args)
        if C.pre is None: C.pre = s.precands(vals); s.changed = True
        for cd in sorted(C.pre, key=repr):
            if any(vals.get(k, (0, None))[1] is None for k in cd[1:]) or not st.F.prove_ge(s.pre(st.F, cd, vals)): C.pre.discard(cd); s.changed = True
    def assumepre(s, I, st, inst, args):
        C = s.c[inst.id]; vals = s.terms(I, st, inst, args)
        for cd in C.pre or ():
            if all(vals.get(k, (0, None))[1] is not None for k in cd[1:]): st.F.assume_ge(s.pre(st.F, cd, vals))
    # results
    def outkeys(s, inst):
        P = s.P; pay = okpayload(P, inst.locals[0])
        return pay, ([(('r',) + p, p, q) for p, q in leaves(P, pay)] if pay is not None else [])
    def postcands(s, ins, outs):
        wi = [k for k, (q, v) in ins.items() if q == 'win']; ii = [k for k, (q, v) in ins.items() if q == 'int']
        r = set()
        for o, (q, v) in outs.items():
            if q == 'win':
                for w in wi: r |= {('suffix', o, w), ('adv', o, w, 1), ('adv', o, w, 0), ('in', o, w)}
            else:
                for a in ii:
                    r |= {('eq', o, a)}
                    if q == 'int':
                        r |= {('ge', o, a)} | {('oeq', o, o2) for o2, (q2, _) in outs.items() if q2 == 'int' and o < o2} if o[0] == 'm' else {('ge', o, a)}
                        for o2, (q2, _) in outs.items():
                            if q2 == 'win': r |= {('rate', o, a, o2, w) for w in wi}
        return r
    def post(s, F, cd, ins, outs):
        k = cd[0]
        o = outs.get(cd[1], (0, None))[1]; a = (outs if k == 'oeq' else ins).get(cd[2], (0, None))[1]
        if o is None or a is None: return False
        if k == 'oeq': return F.prove_eq(o, a)
        if k == 'suffix': return o[0] == a[0] and o[1] == a[1] and F.prove_eq(o[3], a[3])
        if k == 'adv': return F.prove_ge(laddc(lsub(o[2], a[2]), -cd[3]))
        if k == 'in': return F.prove_ge(lsub(a[3], o[2]))
        if k == 'eq': return F.prove_eq(o, a)
        if k == 'ge': return F.prove_ge(lsub(o, a))
        if k == 'rate':
            o2 = outs.get(cd[3], (0, None))[1]; w = ins.get(cd[4], (0, None))[1]
            return o2 is not None and w is not None and F.prove_ge(lsub(lsub(o2[2], w[2]), lsub(o, a)))
    def checkpost(s, inst, I, ins):
        """drop what some return does not satisfy"""
        C = s.c[inst.id]
        pay, ok = s.outkeys(inst)
        for st, v in I.exits:
            if st.F.dead or proto.isok(I, v) is False: continue
            outs = {}
            if v[0] == 'en' and ok:
                for key, p, q in ok:
                    x = v[3][0]
                    for e in p: x = I.sub(st, x, e)
                    outs[key] = (q, value(I, st, (q, x, None)))
            for key, x in inputs(I, st, inst, I.args0).items():
                if key[0] == 'm': outs[key] = (x[0], value(I, st, x))
            for j, g in enumerate(getattr(I, 'ghosts', ())):
                d = I.ghostout(st, inst, v, g)
                outs[('m', -1 - j)] = ('int', laddc(outs[('m', -1 - j)][1], d))
            if C.post is None: C.post = s.postcands(ins, outs); s.changed = True
            for cd in sorted(C.post, key=repr):
                if not s.post(st.F, cd, ins, outs): C.post.discard(cd); s.changed = True
    def cut(s, I, st, inst, args, dty, x, argtys):
        """outcomes of a recursive call that satisfies the contract"""
        P = s.P; C = s.c[inst.id]
        raw = inputs(I, st, inst, args); ins = {k: (q[0], value(I, st, q)) for k, q in raw.items()}
        for v, t in zip(args, argtys): I.havoc(st, v, t)
        for g in getattr(I, 'ghosts', ()): I.write(st, ('g', g), (), ('i', lv(fresh(('ghost', g, I.origin('n')), 64, False)), 64, False))
        T = P.types[dty]; outs = []
        pay, ok = s.outkeys(inst)
        err = st.copy()
        for j, var in enumerate(T['variants'] if okpayload(P, dty) is not None else []):
            z = st if var['name'] == 'Ok' else err
            pv = I.mk_top(var['fields'][0][1], I.origin('rec'))
            if var['name'] == 'Ok':
                F = z.F; terms = {}
                where = [(key, q, p, None) for key, p, q in ok] + [(k, q[0], None, q[2]) for k, q in raw.items() if k[0] == 'm']
                if C.post is None: C.post = s.postcands(ins, {w[0]: (w[1], None) for w in where}); s.changed = True
                post = C.post
                for key, q, p, mem in where:
                    if q == 'win':
                        src = next((cd[2] for cd in post if cd[0] == 'suffix' and cd[1] == key and ins[cd[2]][1] is not None), None)
                        if src is None: continue
                        w = ins[src][1]
                        n = lv(fresh(('rec', key, I.origin('n')), 64, False))
                        F.assume_ge(lsub(w[3], n))
                        terms[key] = ('win', (w[0], w[1], n, w[3]))
                        orig = raw[src][1]
                        if mem: val = (orig[0],) + tuple(orig[1:3]) + (n, w[3]) + tuple(orig[5:]) if orig[0] in ('it', 'sl') else None
                        else: val = ('sl', w[0], w[1], n, w[3], 's')
                        if val is None: continue
                    else:
                        if mem: cur = I.read(z, *mem)
                        else:
                            cur = pv
                            for e in p: cur = I.sub(z, cur, e)
                        if cur[0] == 'top': cur = I.force(z, cur)
                        terms[key] = (q, cur[1] if q == 'int' and cur[0] == 'i' else cur[2] if q == 'vec' and cur[0] == 'vec' else None)
                        continue
                    if mem: I.write(z, mem[0], mem[1], val)
                    else: pv = I._upd(z, pv, p, 0, val, ('x',)) if p else val
                for cd in post:
                    o = terms.get(cd[1], (0, None))[1]; a = (terms if cd[0] == 'oeq' else ins).get(cd[2], (0, None))[1]
                    if o is None or a is None: continue
                    if cd[0] == 'oeq': F.assume_eq(lsub(o, a))
                    elif cd[0] == 'adv': F.assume_ge(laddc(lsub(o[2], a[2]), -cd[3]))
                    elif cd[0] == 'in': F.assume_ge(lsub(a[3], o[2]))
                    elif cd[0] == 'eq': F.assume_eq(lsub(o, a))
                    elif cd[0] == 'ge': F.assume_ge(lsub(o, a))
                    elif cd[0] == 'rate':
                        o2 = terms.get(cd[3], (0, None))[1]; w = ins.get(cd[4], (0, None))[1]
                        if o2 is not None and w is not None: F.assume_ge(lsub(lsub(o2[2], w[2]), lsub(o, a)))
            val = ('en', dty, j, (pv,))
            if var['name'] == 'Ok' and s.atroot:
                wins = [t[1] for t in terms.values() if t[0] == 'win'] + [t[1] for t in ins.values() if t[0] == 'win' and t[1] is not None]
                ends = [t[1] for t in terms.values() if t[0] == 'int' and t[1] is not None]
                z.mon['rest'] = tuple(lsub(t[1][3], t[1][2]) for t in terms.values() if t[0] == 'win') + tuple(lsub(lsub(w[3], w[2]), e) for w in wins for e in ends)
            I.event(z, ('call', inst.defn), 'ok' if var['name'] == 'Ok' else 'err', args, pv)
            outs.append((z, val))
        if not outs:
            I.event(st, ('call', inst.defn), 'ok', args, None)
            return [(st, I.mk_top(dty, I.origin('rec')))]
        return outs

def headers(P, nodes):
    """functions that cut every call cycle: those entered from outside, or all members if that is not enough"""
    out = set()
    for c in sccs(P, nodes):
        g = callgraph(P)
        ent = {k for k in c if P.insts[k].user and any(k in g[x] for x in nodes if x not in c)}
        rest = set(c) - ent
        if any(set(d) for d in sccs(P, rest)): ent = {k for k in c if P.insts[k].user}
        out |= ent
    return out

def listtag(I, st, inst, args):
    """identity of the list of elements"""
    for k, (q, v) in Contracts(I.P, ()).terms(I, st, inst, args).items():
        if q == 'win' and v is not None:
            x = I.read(st, v[0], v[1])
            if x[0] == 'seq': return x[3]
class Analysis(RecCut):
    """the conversion: roots and recursive functions with their contracts"""
    def __init__(s, ctx, P, rs, summ):
        s.ctx = ctx; s.root = rs; s.nodes = reach(P, [i.id for i in rs])
        RecCut.__init__(s, P, s.nodes, summ)
        s.members = headers(P, s.nodes)
        s.K = Contracts(P, s.members)
        s.argfree = False; s.ghosts = (); s.keys = {}; s.edges = None; s.cur = None; s.on_cut = None
    # ranges of the integers among the arguments and behind them
    def intkeys(s, I, st, inst, args):
        vals = s.K.terms(I, st, inst, args)
        ks = s.keys.setdefault(inst.id, sorted(k for k, (q, v) in vals.items() if q == 'int'))
        return [(k, vals[k][1] if k in vals else None) for k in ks]
    def record(s, I, st, inst, args):
        s.join(inst.id, [st.F.rng(st.F.norm(v)) if v is not None else (-(1 << 127), 1 << 128) for k, v in s.intkeys(I, st, inst, args)])
    def assumeranges(s, I, st, inst, args):
        if s.argfree: return
        for (k, v), r in zip(s.intkeys(I, st, inst, args), s.ctxt[inst.id]):
            if v is not None and r is not None: st.F.assume_ge(laddc(v, -r[0])); st.F.assume_ge(laddc(lneg(v), r[1]))
    def measure(s, I, st, inst, args):
        F = st.F; w = I.where(st).inst.name
        there = s.intkeys(I, st, inst, args)
        if s.cur is None: s.edges.setdefault((None, inst.id, w), []).append({k: F.rng(F.norm(v)) if v is not None else None for k, v in there}); return
        m = {}
        for k, v in s.here:
            for k2, v2 in there:
                if v is None or v2 is None: continue
                d = F.norm(lsub(v2, v))
                m[(k, k2)] = (2 if F.prove_ge(laddc(d, -1)) else 1 if F.prove_ge(d) else 0, 2 if F.prove_ge(laddc(lneg(d), -1)) else 1 if F.prove_ge(lneg(d)) else 0, F.rng(F.norm(v2)), F.rng(d))
        s.edges.setdefault((s.cur, inst.id, w), []).append(m)
    def __call__(s, I, st, inst, args, dty, x):
        if inst.id in s.members and inst.body and len(st.frames) > 0:
            s.record(I, st, inst, args)
            if s.edges is not None and not I.quiet: s.measure(I, st, inst, args)
            fr = st.frames[-1]
            s.K.checkpre(I, st, inst, args)
            if s.on_cut: s.on_cut(I, st, inst, args)
            r = s.K.cut(I, st, inst, args, dty, x, [I.op_ty(fr, o) for o in x['args']])
            return r
        return s.hook(I, st, inst, args, dty, x) if s.hook else None
    def runone(s, ctx, inst, monitors=(), before=None):
        member = inst.id in s.members
        ins = {}
        def bef(I, st, a):
            I.deltas = True; I.args0 = a
            if s.ghosts:
                I.ghosts = s.ghosts; I.ghostout = s.ghostout
                for g in s.ghosts: st.mem[('g', g)] = ('i', lv(fresh(('ghost', g), 64, False)) if member else ZERO, 64, False)
            if member:
                s.assumeranges(I, st, inst, a); s.K.assumepre(I, st, inst, a)
            ins.update(s.K.terms(I, st, inst, a))
            s.cur = inst.id if member else None; s.K.atroot = not member
            s.here = s.intkeys(I, st, inst, a) if member else []
            if before: before(I, st, a)
            # the element in progress: the first one that is looked at
            old = I.elemtag
            def elemtag(z, et, tag, n):
                if 'cur' not in z.mon and et is not None and iselem(s.P, et): z.mon['cur'] = z.F.norm(n)
                return old(z, et, tag, n)
            I.elemtag = elemtag
        I = ctx.run(s.P, inst, hook=s, monitors=list(monitors), before=bef)
        if I and member: s.K.checkpost(inst, I, ins)
        return I
    def solve(s):
        quiet = Ctx(s.ctx.id, s.ctx.tier, s.ctx.seed); quiet.dir = s.ctx.dir
        n = 0
        while True:
            n += 1
            if n > 24: s.ctx.undecided('contracts', 'the relations between arguments and results do not stabilise'); return False
            s.K.changed = False; s.dirty = []
            for i in s.root: s.runone(quiet, i)
            for k in sorted(s.ctxt): s.runone(quiet, s.P.insts[k])
            if not s.K.changed and not s.dirty: break
        s.ctx.extra['contracts'] = {s.P.insts[k].defn: dict(before=sorted(map(str, c.pre or ())), after=sorted(map(str, c.post or ()))) for k, c in s.K.c.items()}
        return True

def nodepath(P, t, depth=0):
    """path to the tree node inside a success payload"""
    if isfield(P, t): return ()
    if P.types[t]['k'] == 'tuple' and depth < 3:
        for j, e in enumerate(P.fields(t)):
            p = nodepath(P, e, depth + 1)
            if p is not None: return (('f', j),) + p
def node(I, st, inst, v):
    """the tree node in a successful result"""
    P = I.P; pay = okpayload(P, inst.locals[0]); p = nodepath(P, pay)
    if p is None or v[0] != 'en': return None
    x = v[3][0]
    for e in p: x = I.sub(st, x, e)
    return I.force(st, x) if x[0] == 'top' else x
def optint(I, st, v):
    """value of an Option<integer>: None, an integer term, or '?'"""
    if v[0] == 'top': v = I.force(st, v)
    if v[0] != 'en': return '?'
    if I.P.types[v[1]]['variants'][v[2]]['name'] == 'None': return None
    x = v[3][0]
    if x[0] == 'top': x = I.force(st, x)
    return x[1] if x[0] == 'i' else '?'
def elemfield(P, name):
    t = next(k for k, T in enumerate(P.types) if T['k'] == 'adt' and T['name'].endswith('::SchemaElement'))
    return t, [f[0] for f in P.types[t]['variants'][0]['fields']].index(name)
def part(I, st, v, pred):
    """first part of a struct value whose type satisfies pred"""
    if v[0] == 'top': v = I.force(st, v)
    fs = I.P.fields(v[1], v[2]) if v[0] == 'en' else I.P.fields(v[1]) if v[0] in ('agg', 'top') else []
    for j, f in enumerate(fs):
        if pred(I.P, f): return I.sub(st, v, ('f', j))
    for j, f in enumerate(fs):
        if I.P.types[f]['k'] == 'adt' and CR in I.P.types[f]['name']:
            r = part(I, st, I.sub(st, v, ('f', j)), pred)
            if r is not None: return r
def isvec(P, t): return P.types[t]['k'] == 'adt' and P.types[t]['name'].endswith('vec::Vec') and isfield(P, P.types[t]['args'][0])

@check('C25', 'proof', 'abstract interpretation of the schema conversion with inferred relations between arguments and results of the recursive functions: no panic site is reachable; every recursive call moves an integer argument strictly towards a constant; at every successful exit the node has as many children as its element declares, and none of the elements is left over at the root',
       'abstract interpretation of MIR with inferred contracts of recursive functions',
       'Sound for all lists of schema elements within the trusted base: contracts are kept only if every call and every return satisfies them.',
       debug=True, floors={'panic site': 1, 'recursion': 1, 'children': 1, 'left over': 1, 'conversion': 1})
def c25(ctx):
    P = ctx.schema; rs = roots(P)
    if not rs: return ctx.undecided('anchor', 'no function converts a list of schema elements into a tree')
    A = Analysis(ctx, P, rs, Summ(ctx, P))
    if not A.solve(): return
    A.edges = {}
    et, fnum = elemfield(P, 'num_children')
    class M:
        def __init__(s, inst, member): s.inst = inst; s.member = member; s.n = 0
        def before(s, *a): pass
        def event(s, *a): pass
        def exit(s, I, st, val):
            if I.quiet or st.F.dead: return
            ok = proto.isok(I, val); w = s.inst.name
            if ok is False: return
            s.n += 1; F = st.F
            if not s.member:
                rest = st.mon.get('rest', ())
                ctx.ob(any(F.prove_eq(d) for d in rest), 'left over', s.inst.defn, 'success although elements may be left over behind the root (%s)' % [lstr(F.norm(d)) for d in rest], w)
                return
            v = node(I, st, s.inst, val); cur = st.mon.get('cur')
            if v is None or v[0] != 'en' or cur is None: return ctx.ob(False, 'children', s.inst.defn, 'the node that is returned or its element is not known', w)
            x = I.sub(st, I.elemtag(st, et, A.tag, cur), ('f', fnum)); n = optint(I, st, x)
            name = P.types[v[1]]['variants'][v[2]]['name']
            c = part(I, st, v, isvec)
            if c is None: ctx.ob(n is None or n != '?' and F.prove_eq(n), 'children', s.inst.defn, 'a %s node without children is returned although its element may declare some (%s)' % (name, n if n in (None, '?') else lstr(F.norm(n))), w)
            else: ctx.ob(c[0] == 'vec' and n not in (None, '?') and F.prove_eq(lsub(c[2], n)), 'children', s.inst.defn, 'a %s node with %s children is returned although its element declares %s' % (name, lstr(F.norm(c[2])) if c[0] == 'vec' else '?', n if n in (None, '?') else lstr(F.norm(n))), w)
    for inst in rs + [P.insts[k] for k in sorted(A.ctxt) if P.insts[k] not in rs]:
        m = M(inst, inst.id in A.members)
        def before(I, st, a): A.tag = listtag(I, st, inst, a)
        I = A.runone(ctx, inst, [m], before)
        if not I: continue
        collect(ctx, I, inst.defn, ('panic',), 'panic site')
        for n in I.opaque: ctx.ob(not PANICKY.search(n), 'unmodelled callee', n, 'an unmodelled function that may panic is called from %s' % inst.defn)
        ctx.ob(m.n > 0, 'conversion', inst.defn, 'no successful result')
    for comp in sccs(P, A.nodes):
        mem = [k for k in comp if k in A.members and k in A.ctxt]
        if not mem: continue
        E = [(c, d, w, m) for (c, d, w), ms in A.edges.items() if c in mem and d in mem for m in ms]
        ENT = [(d, w, m) for (c, d, w), ms in A.edges.items() if c not in mem and d in mem for m in ms]
        counters(ctx, P, mem, E, ENT, A.keys, 'recursion', MAXDEPTH)

# ---------------------------------------------------------------- C26
def free(A):
    """analyse the recursive functions from arbitrary arguments, with arbitrary results of recursive calls"""
    for c in A.K.c.values(): c.pre = set(); c.post = set()
    A.argfree = True
def build(I, t, spec, name):
    """a value of type t: int/bool constants, ('sym', lo, hi), None / ('some', spec), (variant, {field: spec}), {field: spec}"""
    P = I.P; T = P.types[t]
    if spec is Ellipsis: return I.mk_top(t, ('pin', name))
    if T['k'] == 'int': return ('i', lc(spec) if isinstance(spec, int) else lv(fresh(('pin', name), T['bits'], T['signed'], spec[1], spec[2])), T['bits'], T['signed'])
    if T['k'] == 'bool': return ('b', int(spec))
    if T['k'] == 'adt' and T['kind'] == 'enum':
        vn = [v['name'] for v in T['variants']]
        if spec is None: return ('en', t, vn.index('None'), ())
        k, fs = ('Some', spec[1]) if spec[0] == 'some' else spec
        v = T['variants'][vn.index(k)]
        return ('en', t, vn.index(k), tuple(build(I, f[1], fs if spec[0] == 'some' else fs.get(f[0], fs.get(0, Ellipsis) if len(v['fields']) == 1 else Ellipsis), name + '.' + str(f[0])) for f in v['fields']))
    if T['k'] == 'adt':
        fs = T['variants'][0]['fields']
        if len(fs) == 1 and not isinstance(spec, dict): return ('agg', t, (build(I, fs[0][1], spec, name),))
        return ('agg', t, tuple(build(I, f[1], spec.get(f[0], Ellipsis), name + '.' + str(f[0])) for f in fs))
    raise interp.Undecided('cannot build a %s' % T['s'])
def flat(I, st, v, name=''):
    """(kind, value, field name) of the integers, booleans and enum variants inside of a value"""
    if v[0] == 'top': v = I.force(st, v)
    T = I.P.types[v[1]] if v[0] in ('top', 'agg', 'en') and v[1] is not None else None
    if v[0] == 'i': return [('i', v[1], name)]
    if v[0] == 'b': return [('b', st.F.rb(v[1]), name)]
    if T and T['k'] == 'adt' and (v[0] != 'top' or T['kind'] == 'struct'):
        V = T['variants'][v[2] if v[0] == 'en' else 0]
        out = [('v', norm_(V['name']), name)] if v[0] == 'en' and not T['name'].startswith('std::option') else [('o', V['name'], name)] if v[0] == 'en' else []
        for j, f in enumerate(V['fields']): out += flat(I, st, I.sub(st, v, ('f', j)), f[0] if not str(f[0]).isdigit() else name)
        return out
    return [('?', v, name)]
def pinned(P, v, name):
    """the integer that was pinned in the field of that name"""
    if v[0] == 'i': return v
    if v[0] not in ('agg', 'en'): return None
    V = P.types[v[1]]['variants'][v[2] if v[0] == 'en' else 0]
    fs = v[3] if v[0] == 'en' else v[2]
    if len(fs) == 1 and str(V['fields'][0][0]).isdigit(): return pinned(P, fs[0], name)
    for f, x in zip(V['fields'], fs):
        if f[0] == name:
            while x[0] in ('agg', 'en') and len(x[-1]) == 1: x = x[-1][0]
            return x
def matches(I, st, got, want, pins):
    """does the flattened value consist of exactly the wanted parts"""
    F = st.F; want = [y for x in want for y in (sorted(x, key=str) if isinstance(x, set) else [x])]
    got = [g for g in got]
    if want == [None]: return got == [('o', 'None', got[0][2])] if got else False
    if got and got[0][0] == 'o':
        if got[0][1] != 'Some': return False
        got = got[1:]
    names = {g[2] for g in got}
    for w in want:
        for k, g in enumerate(got):
            if isinstance(w, bool): ok = g[0] == 'b' and g[1] == int(w)
            elif isinstance(w, int): ok = g[0] == 'i' and F.const(g[1]) == w
            elif isinstance(w, tuple):
                x = pinned(I.P, pins[w[1]], w[-1])
                ok = g[0] == 'i' and (g[2] == w[-1] or w[-1] not in names) and F.prove_eq(g[1], x[1])
            else: ok = g[0] == 'v' and g[1] == norm_(w) or g[0] == 'o' and norm_(g[1]) == w
            if ok: del got[k]; break
        else: return False
    return not got
def norm_(n): return n.replace('_', '').upper()

SOME = lambda x: ('some', x)
PHYS = ['BOOLEAN', 'INT32', 'INT64', 'INT96', 'FLOAT', 'DOUBLE', 'BYTE_ARRAY', 'FIXED_LEN_BYTE_ARRAY']
REPS = ['REQUIRED', 'OPTIONAL', 'REPEATED']
CONV = ['UTF8', 'MAP', 'MAP_KEY_VALUE', 'LIST', 'ENUM', 'DECIMAL', 'DATE', 'TIME_MILLIS', 'TIME_MICROS', 'TIMESTAMP_MILLIS', 'TIMESTAMP_MICROS', 'UINT_8', 'UINT_16', 'UINT_32', 'UINT_64', 'INT_8', 'INT_16', 'INT_32', 'INT_64', 'JSON', 'BSON', 'INTERVAL']
UNITS = ['MILLIS', 'MICROS', 'NANOS']
I31 = (1 << 31) - 1
def cases():
    """(name, fields of the element, expectation): expectation gives the node's kinds as lists of parts; a string in a
    list is a variant, a number or boolean a constant, ('at', field path) the value that was pinned there"""
    prim = {'num_children': None, 'type_': SOME(1), 'repetition_type': SOME(1), 'logicalType': None, 'converted_type': None}
    group = dict(prim, num_children=SOME(('sym', 1, I31)), type_=None)
    def P(name, pins, **exp): return ('primitive, ' + name, dict(prim, **pins), 'primitive', exp)
    def G(name, pins, **exp): return ('group, ' + name, dict(group, **pins), 'group', exp)
    # physical types
    for k, n in enumerate(PHYS[:-1]): yield P('type ' + n, {'type_': SOME(k)}, physical=[n], logical=[None])
    yield P('type without children written as 0', {'num_children': SOME(0)}, physical=['INT32'], logical=[None])
    yield P('fixed length', {'type_': SOME(7), 'type_length': SOME(('sym', 1, I31))}, physical=[PHYS[7], ('at', 'type_length')], logical=[None])
    yield P('fixed length without length', {'type_': SOME(7), 'type_length': None}, refused=1)
    yield P('fixed length not positive', {'type_': SOME(7), 'type_length': SOME(('sym', -1 - I31, 0))}, refused=1)
    yield P('no type', {'type_': None}, refused=1)
    for lo, hi in ((8, I31), (-1 - I31, -1)):
        yield P('unknown type %d..%d' % (lo, hi), {'type_': SOME(('sym', lo, hi))}, refused=1)
        yield P('unknown repetition type %d..%d' % (3 if lo > 0 else lo, hi), {'repetition_type': SOME(('sym', 3 if lo > 0 else lo, hi))}, refused=1)
        yield G('unknown repetition type %d..%d' % (3 if lo > 0 else lo, hi), {'repetition_type': SOME(('sym', 3 if lo > 0 else lo, hi))}, refused=1)
        lo = 22 if lo > 0 else lo
        yield P('unknown converted type %d..%d' % (lo, hi), {'converted_type': SOME(('sym', lo, hi))}, logical=[None])
        yield G('unknown converted type %d..%d' % (lo, hi), {'converted_type': SOME(('sym', lo, hi))}, logical=[None])
    for k, n in enumerate(REPS):
        yield P('repetition ' + n, {'repetition_type': SOME(k)}, repetition=[n], logical=[None])
        yield G('repetition ' + n, {'repetition_type': SOME(k)}, repetition=[n], logical=[None])
    yield P('no repetition type', {'repetition_type': None}, repetition=['REQUIRED'])
    yield G('no repetition type', {'repetition_type': None}, repetition=['REQUIRED'])
    # converted types
    dec = {'precision': SOME(('sym', 1, 38)), 'scale': SOME(('sym', 0, 1))}
    def conv(n):
        if n in ('UTF8',): return ['STRING']
        if n in ('ENUM', 'DATE', 'JSON', 'BSON', 'INTERVAL'): return [n]
        if n == 'DECIMAL': return ['DECIMAL', ('at', 'precision'), ('at', 'scale')]
        if n.startswith('TIME'): a, b = n.split('_'); return [a, {b, True}]
        if 'INT' in n: a, b = n.split('_'); return ['INTEGER', int(b), n[0] == 'I']
        return [None]
    for k, n in enumerate(CONV):
        yield P('converted type ' + n, dict({'converted_type': SOME(k)}, **(dec if n == 'DECIMAL' else {})), logical=conv(n))
        yield G('converted type ' + n, dict({'converted_type': SOME(k)}, **(dec if n == 'DECIMAL' else {})), logical=[n] if n in ('MAP', 'LIST', 'MAP_KEY_VALUE') else [None])
    # logical types, alone and with a converted type of another meaning
    for cn, c in (('', None), (' with a converted type', SOME(6))):
        def L(n, fs, e, e2, note=''):
            if not (c and e == [None]): yield P('logical type ' + n + note + cn, {'logicalType': SOME((n, fs)), 'converted_type': c}, logical=e)
            if c is None or e2 != [None]: yield G('logical type ' + n + note + cn, {'logicalType': SOME((n, fs)), 'converted_type': c and SOME(3)}, logical=e2)
        for n in ('STRING', 'ENUM', 'DATE', 'UNKNOWN', 'JSON', 'BSON', 'UUID', 'FLOAT16', 'GEOMETRY', 'GEOGRAPHY'): yield from L(n, {}, [n], [None])
        for n in ('MAP', 'LIST'): yield from L(n, {}, [None], [n])
        for v in (None, SOME(('sym', -128, 127))):
            yield from L('VARIANT', {0: {'specification_version': v}}, [None], ['VARIANT', 'NONE'] if v is None else ['VARIANT', 'SOME', ('at', 'logicalType', 'specification_version')], ' %s version' % ('without' if v is None else 'with'))
        for n in ('TIME', 'TIMESTAMP'):
            for u in UNITS:
                for b in (True, False): yield from L(n, {0: {'isAdjustedToUTC': b, 'unit': (u, {})}}, [n, {u, b}], [None], ' %s %s' % (u, 'UTC' if b else 'local'))
        for w in (8, 16, 32, 64):
            for b in (True, False): yield from L('INTEGER', {0: {'bitWidth': w, 'isSigned': b}}, ['INTEGER', w, b], [None], ' %d %s' % (w, 'signed' if b else 'unsigned'))
        yield from L('DECIMAL', {0: {'precision': ('sym', 1, 38), 'scale': ('sym', 0, 1)}}, ['DECIMAL', ('at', 'logicalType', 'precision'), ('at', 'logicalType', 'scale')], [None])

    # parameters of annotations: without a meaning, or reported as they are
    LOW = ('sym', -1 - I31, 0)
    for w, more, e in (('logical', lambda p, s: {'logicalType': SOME(('DECIMAL', {0: {'precision': p, 'scale': s}}))}, ['DECIMAL', ('at', 'logicalType', 'precision'), ('at', 'logicalType', 'scale')]),
                       ('converted', lambda p, s: {'converted_type': SOME(5), 'precision': SOME(p), 'scale': SOME(s)}, ['DECIMAL', ('at', 'precision'), ('at', 'scale')])):
        yield P(w + ' decimal, precision not positive', more(LOW, 0), logical=[None])
        for p in (1, 9, 38):
            yield P(w + ' decimal, scale above precision %d' % p, more(p, ('sym', p + 1, I31)), logical=[None])
            yield P(w + ' decimal, scale up to precision %d' % p, more(p, ('sym', 0, p)), logical=e)
        for n, p, s in (('large precision', ('sym', 39, I31), ('sym', 0, 1)), ('negative scale', ('sym', 1, 38), ('sym', -1 - I31, -1))):
            yield P(w + ' decimal, ' + n, more(p, s), logical=e, loose=1)
    for q in ('precision', 'scale'): yield P('decimal without ' + q, dict({'converted_type': SOME(5)}, **dict(dec, **{q: None})), logical=[None])
    for b in (True, False):
        yield P('integer of no width %s' % b, {'logicalType': SOME(('INTEGER', {0: {'bitWidth': ('sym', -128, 0), 'isSigned': b}}))}, logical=[None])
        yield P('integer of any width %s' % b, {'logicalType': SOME(('INTEGER', {0: {'bitWidth': ('sym', 1, 127), 'isSigned': b}}))}, logical=['INTEGER', ('at', 'logicalType', 'bitWidth'), b], loose=1)

def chars(I, st, v):
    """text of a constant string or character, or None"""
    if v[0] == 'i' and v[2] == 32:
        c = st.F.const(v[1])
        return chr(c) if c is not None else None
    if v[0] == 'p': v = I.read(st, v[1], v[2]); return chars(I, st, v)
    sl = models.as_slice(I, st, v) if v[0] in ('sl', 'vec') else None
    if sl is None: return None
    n = st.F.const(lsub(sl[4], sl[3]))
    if n is None or n > 64: return None
    q = I.read(st, sl[1], sl[2]); out = []
    for j in range(n):
        x = I.elem(st, q, laddc(sl[3], j)) if q[0] == 'seq' else U
        c = st.F.const(x[1]) if x[0] == 'i' else None
        if c is None: return None
        out.append(c)
    return bytes(out).decode('utf8', 'replace')
FMT = re.compile(r'fmt::rt::Argument::<.*>::new_(\w+)::<(.*)>$')
def shown(I, st, inst, args):
    """what a formatting call shows: a text, or the value of an argument"""
    n = inst.name
    m = FMT.search(n)
    if m: return ('arg', m.group(1), args[0])
    if re.search(r'fmt::Arguments::<.*>::from_str', n): return ('text', chars(I, st, args[0]))
    if re.search(r'fmt::Formatter::<.*>::(write_str|pad|write_char)$|(Formatter.* as std::fmt::Write>|std::fmt::Write::)(write_str|write_char)', n): return ('text', chars(I, st, args[-1]))
class Show:
    """records what is shown"""
    def before(s, *a): pass
    def event(s, *a): pass
    def exit(s, *a): pass
    def hook(s, I, st, inst, args, dty, x):
        if inst.user: return None
        r = shown(I, st, inst, args)
        if r is None: return None
        if r[0] == 'arg':
            v = r[2]
            while v[0] == 'p':
                t = I.read(st, v[1], v[2])
                if t[0] == 'p': v = t; continue
                v = t; break
            r = ('val', r[1], v)
        if len(st.mon.get('shown', ())) < 24: st.mon['shown'] = st.mon.get('shown', ()) + (r,)
        return None
def fmtimpl(P, ty, traits=('Display', 'Debug')):
    for tr in traits:
        for i in P.insts:
            if i.user and i.body and re.match(r'<(\w+::)*%s as std::fmt::%s>::fmt$' % (ty, tr), i.name): yield tr, i
def text(ctx, P):
    """the texts of repetition types and of integer annotations"""
    for tr, i in fmtimpl(P, 'RepetitionType', ('Display',)):
        t = P.types[i.locals[1]]['to']; n = {}
        class M(Show):
            def exit(s, I, st, val):
                if I.quiet or st.F.dead or proto.isok(I, val) is False: return
                o, pa, _ = I.deref(st, I.args0[0]); v = I.read(st, o, pa)
                if v[0] != 'en': return ctx.ob(False, 'text', i.defn, 'the text does not depend on the repetition type', i.name)
                name = P.types[t]['variants'][v[2]]['name']; n[name] = 1
                tx = ''.join(x[1] or '?' for x in st.mon.get('shown', ()) if x[0] == 'text')
                ctx.ob(norm_(tx.strip()) == norm_(name), 'text', i.defn + ':' + name, '%s is shown as "%s"' % (name, tx), i.name)
        m = M(); ctx.run(P, i, hook=m.hook, monitors=[m], args=lambda I, st, a: a)
    for tr, i in fmtimpl(P, 'IntegerOptions'):
        if not any('new_' in P.insts[k].name or 'write_' in P.insts[k].name for k in callgraph(P)[i.id]): continue
        class M(Show):
            def exit(s, I, st, val):
                if I.quiet or st.F.dead or proto.isok(I, val) is False: return
                o, pa, _ = I.deref(st, I.args0[0]); v = I.read(st, o, pa)
                fs = flat(I, st, v); w = next((f[1] for f in fs if f[0] == 'i'), None); sg = next((f[1] for f in fs if f[0] == 'b'), None)
                at = []
                for x in st.mon.get('shown', ()):
                    if x[0] == 'text': at.append(x[1])
                    elif x[2][0] == 'i' and x[2][2] == 32: at.append(chars(I, st, x[2]))
                    elif x[2][0] == 'i': at.append(x[2])
                    else: at.append(chars(I, st, x[2]) if x[2][0] in ('sl', 'vec') else None)
                at = [x for x in at if x != '']
                want = {0: 'u', 1: 'i'}.get(sg)
                ok = len(at) == 2 and want is not None and at[0] == want and isinstance(at[1], tuple) and w is not None and st.F.prove_eq(at[1][1], w)
                ctx.ob(ok, 'text', i.defn, 'an integer annotation (signed %s) is shown as %s' % (sg, at), i.name)
        m = M(); ctx.run(P, i, hook=m.hook, monitors=[m])
def elementkey(ctx, A, inst):
    """which of the arguments tells the element that a function converts"""
    keys = []; ins = []
    class M:
        def before(s, *a): pass
        def event(s, *a): pass
        def exit(s, I, st, val):
            if I.quiet or st.F.dead or proto.isok(I, val) is not True: return
            cur = st.mon.get('cur'); here = set()
            for k, (q, v) in ins:
                if v is not None and cur is not None and (st.F.prove_eq(cur, v[2]) if q == 'win' else st.F.prove_eq(cur, v)): here.add((q, k))
            keys.append(here)
    def before(I, st, a):
        del ins[:]
        ins.extend(A.K.terms(I, st, inst, a).items())
        o = st.F
        for k, (q, v) in ins:
            if q == 'win' and v is not None: o.assume_ge(laddc(lsub(v[3], v[2]), -1))
    quiet = Ctx(ctx.id, ctx.tier, ctx.seed); quiet.dir = ctx.dir
    A.runone(quiet, inst, [M()], before)
    r = set.intersection(*keys) if keys else set()
    return sorted(r, key=lambda x: (x[0] != 'win', str(x)))[0] if r else None
def isname(n): return lambda P, t: tyname(P, t).endswith('::' + n)
def isoptlogical(P, t): return tyname(P, t).endswith('option::Option') and tyname(P, P.types[t]['args'][0]).endswith('LogicalType')
@check('C26', 'proof', 'for each defined value of every annotation of an element (and the ranges of undefined values), in primitive and in group position, the conversion of an element that carries it is analysed with everything else arbitrary: at every successful exit the node carries the kind of the same meaning with the same parameters, unsupported annotations leave no kind, undefined physical and repetition types have no successful exit, and the defined ones are not refused',
       'abstract interpretation of MIR per annotation constant; comparison of the resulting node with the table of the Parquet format',
       'Sound within the trusted base: each constant or range is analysed for all values of the other parts of the element.',
       floors={'kind': 100, 'refusal': 4, 'accepted': 80, 'text': 2})
def c26(ctx):
    P = ctx.schema; rs = roots(P)
    if not rs: return ctx.undecided('anchor', 'no function converts a list of schema elements into a tree')
    A = Analysis(ctx, P, rs, None); free(A)
    summ = Summ(ctx, P)
    et, _ = elemfield(P, 'num_children')
    names = [f[0] for f in P.types[et]['variants'][0]['fields']]
    todo = []
    for k in sorted(A.members or [i.id for i in rs]):
        inst = P.insts[k]
        if nodepath(P, okpayload(P, inst.locals[0]) or 0) is None: continue
        A.hook = summ
        key = elementkey(ctx, A, inst)
        A.hook = None
        if key: todo += [(inst, key, c) for c in cases()]
    if not todo: return ctx.undecided('anchor', 'no function converts a single element')
    def one(item):
        inst, key, (name, pins, kind, exp) = item
        vals = {}; w = inst.name; lab = '%s: %s' % (inst.defn, name)
        class M:
            n = 0; bad = 0
            def before(s, *a): pass
            def event(s, *a): pass
            def exit(s, I, st, val):
                if I.quiet or st.F.dead: return
                ok = proto.isok(I, val)
                if ok is False:
                    if kind == 'primitive' and name.startswith('primitive, unknown ') and 'refused' in exp:
                        f = 'type_' if 'unknown type' in name else 'repetition_type'
                        e = val[3][0]; e = I.force(st, e) if e[0] == 'top' else e; x = pinned(P, vals[f], f)
                        ctx.ob(e[0] == 'en' and proto.errname(I, st, val) == 'UnknownType' and e[3][0][0] == 'i' and st.F.prove_eq(e[3][0][1], x[1]), 'refusal', lab, 'the unknown value is refused with %s instead of an error that carries it' % proto.errname(I, st, val), w)
                    if kind == 'primitive' and 'refused' not in exp: ctx.ob(False, 'accepted', lab, 'an element with this annotation may be refused with %s' % proto.errname(I, st, val), w)
                    return
                s.n += 1
                if 'refused' in exp: return
                v = node(I, st, inst, val)
                if v is None or v[0] != 'en': return ctx.ob(False, 'kind', lab, 'the node that is returned is not known', w)
                group = part(I, st, v, isvec) is not None
                if group != (kind == 'group'): return ctx.ob(False, 'kind', lab, 'a node of the wrong kind is returned', w)
                for what, pred in (('physical', isname('PhysicalType')), ('repetition', isname('RepetitionType')), ('logical', isoptlogical)):
                    if what not in exp: continue
                    x = part(I, st, v, pred)
                    got = flat(I, st, x) if x is not None else [('?', None, '')]
                    ctx.ob(matches(I, st, got, exp[what], vals) or 'loose' in exp and what == 'logical' and matches(I, st, got, [None], vals), 'kind', lab, 'the %s kind of the node is %s, expected %s' % (what, ' '.join('%s%s' % (g[2] + '=' if g[2] else '', lstr(st.F.norm(g[1])) if g[0] == 'i' else g[1]) for g in got), exp[what]), w)
        m = M()
        def before(I, st, a):
            vals.clear()
            T = A.K.terms(I, st, inst, a)
            if key[0] == 'int' and key[1] in T: idx = T[key[1]][1]
            for k, (q, v) in T.items():
                if q != 'win' or v is None: continue
                st.F.assume_ge(laddc(lsub(v[3], v[2]), -1))
                at = v[2] if key[0] == 'win' else idx
                st.F.assume_ge(laddc(lsub(lsub(v[3], v[2]), ladd(at, v[2], -1) if key[0] == 'win' else idx), -1))
                if key[0] == 'win' and k != key[1]: continue
                for f, spec in pins.items():
                    j = names.index(f)
                    vals[f] = build(I, P.fields(et)[j], spec, f)
                    I.write(st, v[0], v[1] + (('i', at), ('f', j)), vals[f])
        I = A.runone(ctx, inst, [m], before)
        if not I: return
        if 'refused' in exp: ctx.ob(m.n == 0, 'refusal', lab, 'an element with this annotation may be accepted', w)
        else: ctx.ob(m.n > 0, 'accepted', lab, 'an element with this annotation is never accepted', w)
    ctx.par(todo, one)
    text(ctx, P)

# ---------------------------------------------------------------- C30
def field(P, I, st, v, name):
    """the field of that name in a struct value or in the structs inside of it"""
    if v[0] == 'top': v = I.force(st, v)
    if v[0] not in ('en', 'agg', 'top') or v[1] is None or P.types[v[1]]['k'] != 'adt': return None
    V = P.types[v[1]]['variants'][v[2] if v[0] == 'en' else 0]
    for j, f in enumerate(V['fields']):
        if f[0] == name: return I.sub(st, v, ('f', j))
    for j, f in enumerate(V['fields']):
        if P.types[f[1]]['k'] == 'adt' and CR in P.types[f[1]]['name']:
            r = field(P, I, st, I.sub(st, v, ('f', j)), name)
            if r is not None: return r
def sametext(I, st, a, b):
    """do two strings hold the same bytes"""
    x = models.as_slice(I, st, a); y = models.as_slice(I, st, b)
    if x is None or y is None: return False
    p = I.read(st, x[1], x[2]); q = I.read(st, y[1], y[2])
    if (x[1], x[2], x[3], x[4]) == (y[1], y[2], y[3], y[4]): return True
    return p[0] == q[0] == 'seq' and not p[4] and not q[4] and st.F.prove_eq(lsub(x[4], x[3]), lsub(y[4], y[3])) and I.elemtag(st, P8(I), p[3], x[3]) == I.elemtag(st, P8(I), q[3], y[3])
def P8(I): return I.P.u8()
@check('C30', 'proof', 'abstract interpretation of the schema conversion with inferred relations between arguments and results of the recursive functions and a ghost counter of the leaves: at every successful exit the name and field id of the node are those of its element, its levels are those of the parent (0 at the root) plus one if the repetition of the element is not required, respectively is repeated, and the index of a leaf is the number of leaves before it',
       'abstract interpretation of MIR with inferred contracts of recursive functions',
       'Sound for all lists of schema elements within the trusted base.',
       floors={'name': 2, 'field id': 2, 'definition level': 2, 'repetition level': 2, 'leaf index': 1, 'parent level': 2, 'root level': 2, 'accessor': 8})
def c30(ctx):
    P = ctx.schema; rs = roots(P)
    if not rs: return ctx.undecided('anchor', 'no function converts a list of schema elements into a tree')
    accessors(ctx, P)
    q = Ctx(ctx.id, ctx.tier, ctx.seed); q.dir = ctx.dir
    A = Analysis(ctx, P, rs, Summ(q, P))
    A.ghosts = ('leaves',)
    def leafcount(st, inst, v, g):
        x = node(A.I, st, inst, v)
        return 1 if x is not None and x[0] == 'en' and part(A.I, st, x, isvec) is None else 0
    A.ghostout = leafcount
    old = A.K.checkpost
    def checkpost(inst, I, ins): A.I = I; old(inst, I, ins)
    A.K.checkpost = checkpost
    if not A.solve(): return
    A.hook = Summ(ctx, P, only=lambda P, t: mentions(P, t, lambda P, u: tyname(P, u).endswith('LogicalType') or tyname(P, u).endswith('PhysicalType')))
    et, frep = elemfield(P, 'repetition_type'); _, fname = elemfield(P, 'name'); _, fid = elemfield(P, 'field_id')
    LEV = (('definition level', 'def_level', (1, 2)), ('repetition level', 'rep_level', (2,)))
    def reps(I, st, cur, tag):
        """the repetition of the element in progress: states in which it is known"""
        x = I.sub(st, I.elemtag(st, et, tag, cur), ('f', frep))
        if x[0] == 'top': x = I.force(st, x)
        if x[0] != 'en': return None
        if P.types[x[1]]['variants'][x[2]]['name'] == 'None': return [(st.F.copy(), 0)]
        v = x[3][0]
        while v[0] in ('agg', 'top') and not (v[0] == 'top' and P.types[v[1]]['k'] != 'adt'): v = I.sub(st, v, ('f', 0))
        if v[0] != 'i': return None
        out = []
        for c in (0, 1, 2):
            G = st.F.copy()
            if all(G.assume_bit(G.cond('eq', laddc(v[1], -k)), int(k == c)) for k in (0, 1, 2)) and G.assume_eq(laddc(v[1], -c)) and not G.dead: out.append((G, c))
        return out
    cand = {}          # (member, what) -> argument keys that may carry the level of the parent
    obs = []
    for inst in rs + [P.insts[k] for k in sorted(A.ctxt) if P.insts[k] not in rs]:
        member = inst.id in A.members; w = inst.name
        ins = {}; tag = [None]
        class M:
            def before(s, *a): pass
            def event(s, *a): pass
            def exit(s, I, st, val):
                if I.quiet or st.F.dead or proto.isok(I, val) is False or not member: return
                F = st.F; v = node(I, st, inst, val); cur = st.mon.get('cur')
                if v is None or v[0] != 'en' or cur is None: return ctx.ob(False, 'name', inst.defn, 'the node that is returned or its element is not known', w)
                e = I.elemtag(st, et, tag[0], cur)
                nm = field(P, I, st, v, 'name')
                ctx.ob(nm is not None and sametext(I, st, nm, I.sub(st, e, ('f', fname))), 'name', inst.defn, 'the name of the node is not known to be the name of its element', w)
                a = optint(I, st, I.sub(st, e, ('f', fid))); b = field(P, I, st, v, 'field_id')
                b = idvalue(I, st, b) if b is not None else '?'
                same = a is None and b is None or a not in (None, '?') and b not in (None, '?') and (F.prove_eq(a, b) or [F.rb(x) for x in bitlist(F, a, 32)] == [F.rb(x) for x in bitlist(F, b, 32)])
                ctx.ob(same, 'field id', inst.defn, 'the field id of the node is %s, that of its element %s' % tuple(x if x in (None, '?') else lstr(F.norm(x)) for x in (b, a)), w)
                R = reps(I, st, cur, tag[0])
                for what, fn, inc in LEV:
                    l = field(P, I, st, v, fn)
                    if l is None or l[0] != 'i' or R is None: ctx.ob(False, what, inst.defn, 'the level or the repetition is not known', w); continue
                    for G, c in R: G.settle(l[1])
                    ok = {k for k, x in ins.items() if all(G.prove_eq(l[1], laddc(x, int(c in inc))) for G, c in R)}
                    obs.append((inst, what, ok, [(c, lstr(G.norm(l[1]))) for G, c in R]))
                x = field(P, I, st, v, 'index')
                if part(I, st, v, isvec) is None:
                    g = ginit[0]
                    ctx.ob(x is not None and x[0] == 'i' and any(F.prove_eq(k, g) and (F.prove_eq(x[1], k) or [F.rb(y) for y in bitlist(F, x[1], x[2])] == [F.rb(y) for y in bitlist(F, k, x[2])]) for k in [g] + list(ins.values())), 'leaf index', inst.defn, 'the index of a leaf is %s, not the number of leaves before it' % (lstr(F.norm(x[1])) if x and x[0] == 'i' else '?'), w)
        calls = []; ginit = [None]
        def before(I, st, a):
            A.I = I
            ins.clear(); tag[0] = listtag(I, st, inst, a)
            ginit[0] = st.mem[('g', 'leaves')][1]
            ins.update({k: v for k, (q, v) in A.K.terms(I, st, inst, a).items() if q == 'int' and v is not None and k != ('m', -1)})
        def oncut(I, st, callee, args):
            """levels handed to the children"""
            if I.quiet: return
            there = {k: v for k, (q, v) in A.K.terms(I, st, callee, args).items() if q == 'int' and v is not None}
            cur = st.mon.get('cur')
            if not member:
                calls.append((callee, {k for k, v in there.items() if st.F.prove_eq(v)}, None)); return
            R = reps(I, st, cur, tag[0]) if cur is not None else None
            good = {}
            for G, c in R or ():
                for v in there.values(): G.settle(v)
            for what, fn, inc in LEV:
                good[what] = {(k0, k) for k0, x in ins.items() for k, v in there.items() if R is not None and all(G.prove_eq(v, laddc(x, int(c in inc))) for G, c in R)}
            calls.append((callee, None, good))
        A.on_cut = oncut
        m = M()
        I = A.runone(ctx, inst, [m], before)
        A.on_cut = None
        if not I: continue
        for callee, zero, good in calls: obs.append((inst, ('call', callee), zero, good))
    # a single argument of each recursive function carries each level
    for what, fn, inc in LEV:
        mem = sorted({o[0].id for o in obs if o[1] == what})
        keys = {k: set.intersection(*[o[2] for o in obs if o[0].id == k and o[1] == what]) for k in mem}
        for k in mem:
            bad = [o for o in obs if o[0].id == k and o[1] == what and not o[2]]
            ctx.ob(bool(keys[k]), what, P.insts[k].defn, 'the %s of the node is not known to be that of the parent plus the contribution of its own repetition type (repetition, level): %s' % (what, (bad or [o for o in obs if o[0].id == k and o[1] == what])[0][3]), P.insts[k].name)
            ctx.ob(bool(keys[k]), what, P.insts[k].defn + ':argument', 'no argument carries the level', P.insts[k].name)
        for inst, o, zero, good in obs:
            if not isinstance(o, tuple): continue
            callee = o[1]; ks = keys.get(callee.id, set())
            if inst.id in A.members:
                ctx.ob(any((a, b) in good[what] for a in keys.get(inst.id, ()) for b in ks), 'parent level', inst.defn + ':' + what, 'the children are not known to be given the %s of their parent' % what, inst.name)
            else: ctx.ob(any(k in ks for k in zero), 'root level', inst.defn + ':' + what, 'the root is not known to start at %s 0' % what, inst.name)
def accessors(ctx, P):
    """the methods of a node report what it holds"""
    WANT = {'name': 'name', 'definition_level': 'def_level', 'repetition_level': 'rep_level', 'is_optional': 'repetition'}
    for i in schemafns(P):
        n = i.defn.split('::')[-1]
        if i.argc != 1 or n not in WANT or P.types[i.locals[1]]['k'] != 'ref' or not isfield(P, P.types[i.locals[1]]['to']): continue
        ft = P.types[i.locals[1]]['to']; kinds = P.types[ft]['variants']
        for k, y in enumerate(kinds):
            for r in range(3 if n == 'is_optional' else 1):
                def before(I, st, a):
                    x = I.read(st, a[0][1], a[0][2]); st.ch[x[2]] = k
                    if n == 'is_optional':
                        f = field(P, I, st, I.force(st, x), 'repetition')
                        if f is not None and f[0] == 'top': st.ch[f[2]] = r
                proto._memo.clear()
                I = ctx.run(P, i, hook=proto.Cut('P'), before=before)
                if not I: continue
                lab = '%s:%s' % (n, y['name'])
                for st, v in I.exits:
                    if st.F.dead: continue
                    me = I.args0[0]; x = I.force(st, I.read(st, me[1], me[2])); f = field(P, I, st, x, WANT[n]); ok = f is not None
                    if ok and n == 'name': ok = sametext(I, st, v, f)
                    elif ok and n == 'is_optional': ok = f[0] in ('top', 'en') and v[0] == 'b' and st.F.rb(v[1]) == int(P.types[f[1]]['variants'][r]['name'] == 'Optional')
                    elif ok: ok = v[0] == 'i' == f[0] and st.F.prove_eq(v[1], f[1])
                    ctx.ob(ok, 'accessor', lab, 'the method does not report what the node holds', i.name)
def bitlist(F, l, w):
    bs, ext = F.bits(l)
    return [bs[j] if j < len(bs) else ext for j in range(w)]
def idvalue(I, st, v):
    """value of an optional field id"""
    if v[0] == 'top': v = I.force(st, v)
    if v[0] != 'en': return '?'
    if I.P.types[v[1]]['variants'][v[2]]['name'] == 'None': return None
    x = v[3][0]
    while x[0] in ('agg', 'top') and I.P.types[x[1]]['k'] == 'adt': x = I.sub(st, x, ('f', 0))
    if x[0] == 'i': return x[1]
    if x[0] == 'seq':
        bs = []
        for j in range(4):
            e = I.elem(st, x, lc(j))
            if e[0] != 'i': return '?'
            bs += bitlist(st.F, e[1], 8)
        l = st.F.from_bits(tuple(bs), bs[-1])
        return l
    return '?'
