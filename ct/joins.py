"""Loop invariants by templates: each integer slot of the abstract memory is invariant, affine in the iteration
count, or a phi symbol with an interval and candidate relations that are kept only while they are inductive."""
from dom import *
import dom

THRESH = sorted([-(1 << 63), -(1 << 31), -(1 << 15), -128, -1, 0, 1, 2, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 32767, 65535, (1 << 31) - 1, (1 << 32) - 1, 10_000_000, 16 * 1024 * 1024, (1 << 63) - 1, (1 << 64) - 1])

def deep_syms(l): return [t[0] for t in l[1]]

class Walk:
    """simultaneous traversal of two memories; leaf(slot, a, b, w, sg) decides integers"""
    def __init__(s, I, A, B, leaf, batom):
        s.I = I; s.A = A; s.B = B; s.leaf = leaf; s.batom = batom
        s.m = {}; s.inv = {}; s.out = {}; s.todo = []
        s.changed = False
    def lin(s, slot, a, b, w=64, sg=False): return s.leaf(slot, a, b, w, sg)
    eltag = None
    def element(s, slot, b):
        """a slot that holds the element of a buffer at an index that is known at every entry of the loop"""
        n = s.B.F.norm(b[1]); e = None
        if n[0] == 0 and len(n[1]) == 1 and n[1][0][1] == 1: e = dom.ELEM.get(n[1][0][0])
        sl = (slot, 'elix')
        if s.creating:
            if e is None: return
            s.eltag[slot] = e[:2]
        elif slot not in s.eltag: return
        elif e is None or e[:2] != s.eltag[slot]:
            del s.eltag[slot]; s.changed = True; return
        s.lin(sl, s.elvals.get(sl, e[2]), e[2])
    def obj(s, a, b):
        """joined object id, or None"""
        if a == b:
            if a[0] == 'h':
                if s.m.get(a, a) != a or s.inv.get(a, a) != a: return None
                if a not in s.m: s.m[a] = a; s.inv[a] = a; s.todo.append(a)
            return a
        if a[0] == 'h' and b[0] == 'h':
            if s.m.get(a, b) != b or s.inv.get(b, a) != a: return None
            if a not in s.m: s.m[a] = b; s.inv[b] = a; s.todo.append(a)
            return a
        return None
    def path(s, slot, p, q):
        if len(p) != len(q): return None
        r = []
        for i, (x, y) in enumerate(zip(p, q)):
            if x[0] != y[0]: return None
            if x[0] == 'i': r.append(('i', s.lin((slot, 'pi', i), x[1], y[1])))
            elif x != y: return None
            else: r.append(x)
        return tuple(r)
    def tyof(s, v):
        k = v[0]
        if k in ('agg', 'en', 'top'): return v[1]
        return None
    def topval(s, slot, a, b, ty=None):
        """values that do not match structurally"""
        ta, tb = s.tyof(a), s.tyof(b)
        t = ta if ta is not None else tb
        if t is None: t = ty
        if a[0] == 'top' and len(a[2]) and a[2][0] == 'phi' and a[2][1] == (s.A_id, slot): return a
        s.changed = True
        if t is None: return ('uninit',)
        return ('top', t, ('phi', (s.A_id, slot))) if s.I.P.types[t]['k'] in ('adt', 'tuple', 'closure') else s.I.mk_top(t, ('phi', (s.A_id, slot)))
    def val(s, slot, a, b, ty=None):
        I = s.I
        if a[0] == 'top': a = I.force(s.A, a)
        if b[0] == 'top': b = I.force(s.B, b)
        k = a[0]
        if k == 'uninit' or b[0] == 'uninit':
            if k != b[0]: s.changed = s.changed or k != 'uninit'
            return ('uninit',)
        if k != b[0] or (k == 'top' and a != b):
            x, y = s.expand(a, ty), s.expand(b, ty)
            if x is not None and y is not None: return s.val(slot, x, y, ty)
            if k == 'sl' or b[0] == 'sl': return s.unk(slot, a, b, ty)
            return s.topval(slot, a, b, ty)
        if k == 'i':
            if s.eltag is not None: s.element(slot, b)
            return ('i', s.lin(slot, a[1], b[1], a[2], a[3]), a[2], a[3])
        if k == 'b': return ('b', s.batom(slot, a[1], b[1]))
        if k == 'agg':
            if a[1] != b[1] or len(a[2]) != len(b[2]): return s.topval(slot, a, b, ty)
            return ('agg', a[1], tuple(s.val((slot, i), x, y, f) for i, (x, y, f) in enumerate(zip(a[2], b[2], s.ftys(a[1], 0, len(a[2]))))))
        if k == 'en':
            if a[1] != b[1] or a[2] != b[2] or len(a[3]) != len(b[3]): return s.topval(slot, a, b, ty)
            return ('en', a[1], a[2], tuple(s.val((slot, a[2], i), x, y, f) for i, (x, y, f) in enumerate(zip(a[3], b[3], s.ftys(a[1], a[2], len(a[3]))))))
        if k == 'top':
            if a == b: return a
            return s.topval(slot, a, b, ty)
        if k == 'p':
            o = s.obj(a[1], b[1]); p = s.path(slot, a[2], b[2]) if o is not None else None
            if p is None: return s.unk(slot, a, b, ty)
            return ('p', o, p)
        if k == 'sl':
            o = s.obj(a[1], b[1]); p = s.path(slot, a[2], b[2]) if o is not None else None
            if p is None:
                # some buffer of unknown contents; the window is still tracked
                et = None
                if ty is not None and I.P.types[ty]['k'] in ('ref', 'ptr'):
                    E = I.P.types[I.P.types[ty]['to']]
                    et = E['elem'] if E['k'] == 'slice' else I.P.u8() if E['k'] == 'str' else None
                if et is None:
                    q = I.read(s.A, a[1], a[2]); et = q[1] if q[0] == 'seq' else None
                if et is None: return s.unk(slot, a, b, ty)
                o = ('obj', ('phi', (s.A_id, slot), '*'), 'seq', et); p = ()
                if a[1] != o: s.changed = True
            return ('sl', o, p, s.lin((slot, 's'), a[3], b[3]), s.lin((slot, 'e'), a[4], b[4]), a[5])
        if k == 'vec':
            o = s.obj(a[1], b[1])
            if o is None: return s.unk(slot, a, b, ty)
            return ('vec', o, s.lin((slot, 'len'), a[2], b[2]), s.lin((slot, 'cap'), a[3], b[3]))
        if k == 'box':
            o = s.obj(a[1], b[1])
            if o is None: return s.unk(slot, a, b, ty)
            return ('box', o)
        if k == 'bsl':
            x = s.val((slot, 'b'), a[1], b[1])
            return ('bsl', x) if x[0] == 'sl' else s.unk(slot, a, b, ty)
        if k in ('it', 'vit'):
            o = s.obj(a[1], b[1]); p = s.path(slot, a[2], b[2]) if o is not None else None
            if p is None: return s.unk(slot, a, b, ty)
            return (k, o, p, s.lin((slot, 's'), a[3], b[3]), s.lin((slot, 'e'), a[4], b[4]))
        if k == 'ep':
            o = s.obj(a[1], b[1]); p = s.path(slot, a[2], b[2]) if o is not None else None
            if p is None: return s.unk(slot, a, b, ty)
            if (a[4] is None) != (b[4] is None): return s.unk(slot, a, b, ty)
            return ('ep', o, p, s.lin((slot, 's'), a[3], b[3]), None if a[4] is None else s.lin((slot, 'e'), a[4], b[4]))
        if k == 'seq':
            tag = a[3]
            if a[3] != b[3]:
                if not (a[3][0] == 'phi' and a[3][1] == (s.A_id, slot)): s.changed = True
                tag = ('phi', (s.A_id, slot))
            els = ()
            if a[4] and len(a[4]) == len(b[4]) and all(s.same(x[0], y[0]) for x, y in zip(a[4], b[4])) and len(a[4]) <= 64 and s.cons(a[4]):
                els = tuple((x[0], s.val((slot, 'el', i), x[1], y[1], a[1])) for i, (x, y) in enumerate(zip(a[4], b[4])))
            elif a[4] or b[4]:
                if not (a[3][0] == 'phi' and a[3][1] == (s.A_id, slot)): s.changed = True
                tag = ('phi', (s.A_id, slot))
            ln = s.lin((slot, 'len'), a[2], b[2])
            init = None
            if a[5] is not None or b[5] is not None:
                x = a[5] if a[5] is not None else a[2]; y = b[5] if b[5] is not None else b[2]
                init = s.lin((slot, 'init'), x, y)
                if a[5] is None: s.changed = True
            return ('seq', a[1], ln, tag, els, init)
        if k == 'simd':
            return ('simd', tuple(s.val((slot, i), x, y) for i, (x, y) in enumerate(zip(a[1], b[1]))))
        if a == b: return a
        return s.unk(slot, a, b, ty)
    def expand(s, v, ty):
        """a struct that was never looked at, as an aggregate of its members"""
        if v[0] == 'agg': return v
        if v[0] != 'top' or v[1] is None: return None
        T = s.I.P.types[v[1]]
        if T['k'] in ('tuple', 'closure') or (T['k'] == 'adt' and T['kind'] == 'struct'):
            fs = s.I.P.fields(v[1])
            return ('agg', v[1], tuple(s.I.mk_top(f, v[2] + (('f', i),)) for i, f in enumerate(fs)))
        return None
    n0 = 0
    def cons(s, els): return all(t[0] < s.n0 for l, _ in els for t in l[1])
    def same(s, x, y): return x == y
    def unk(s, slot, a, b, ty):
        v = ('uninit',) if ty is None else s.I.mk_top(ty, ('phi', (s.A_id, slot)))
        if v != a: s.changed = True
        return v
    def ftys(s, t, var, n):
        f = s.I.P.fields(t, var)
        return list(f) + [None] * (n - len(f))

class Part: pass

def gkey(fid, head): return ('g', 'iter', fid, head)

def roots(I, st, fr):
    """memory keys that matter at the loop head"""
    live = I.P.live(fr.inst)[fr.bb]
    ks = []
    for k in st.mem:
        if k[0] == 'l':
            if k[1] == fr.id and not (live >> k[2]) & 1: continue
            ks.append(k)
        elif k == ('g', 'lasterr'): continue       # the error of the last failed operation is not followed round a loop
        elif k[0] in ('obj', 'g', 'unk'): ks.append(k)
    return ks

def analyze(I, st0):
    fr = st0.frames[-1]
    fid, head, depth = fr.id, fr.bb, len(st0.frames)
    body = I.P.loops(fr.inst)[head]
    g = gkey(fid, head)
    n0 = len(SYMS); a0 = len(ATOMS)
    st0 = st0.copy()
    st0.mem[g] = ('i', ZERO, 64, False)
    fids = {f.id: f for f in st0.frames}
    parts = {}
    stride = {}
    I.nloop = getattr(I, 'nloop', 0) + 1
    lid = I.nloop
    I.loopinfo[(fr.inst.id, head)] = I.loopinfo.get((fr.inst.id, head), 0) + 1

    def keyty(k):
        if k[0] == 'l': return fids[k[1]].inst.locals[k[2]] if k[1] in fids else None
        if k[0] == 'obj': return k[3] if k[2] == 'val' else None
        return None

    def traverse(part, A, B, leaf, batom, keys, creating=False):
        w = Walk(I, A, B, leaf, batom); w.A_id = (lid, part.n); w.n0 = n0; w.eltag = part.eltag; w.elvals = part.vals; w.creating = creating
        out = {}
        for k in keys:
            out[k] = w.val(k, I.getobj(A, k), I.getobj(B, k), keyty(k))
        while w.todo:
            o = w.todo.pop()
            out[o] = w.val(o, I.getobj(A, o), I.getobj(B, w.m[o]), None)
        return out, w

    def instantiate(part):
        st = st0.copy()
        st.mem = dict(part.mem)
        st.mon = dict(part.mon)
        F = st.F
        for s, p in part.phi.items():
            lo, hi = part.iv[s]
            if not F.set_iv(p, lo, hi): return None
        for l in part.pre:
            if not F.assume_ge(l): return None
        for s, v in part.vals.items():
            # an unsigned variable that counts down with the iterations is not negative
            if s in part.phi or s not in part.wsg or part.wsg[s][1] or s[0] == 'g' or isinstance(s[0], tuple) and s[0][0] == 'g': continue
            if any(t[0] >= n0 and t[1] < 0 for t in v[1]) and not F.prove_ge(v) and not F.assume_ge(v): return None
        for s, (et, tag) in part.eltag.items():
            v, ix = part.vals.get(s), part.vals.get((s, 'elix'))
            if v is None or ix is None: continue
            e = I.mk_top(et, ('el', tag, ix))
            if e[0] == 'i' and e[1] != v and not F.assume_eq(lsub(v, e[1])): return None
        for kind, x, y, c in part.cands:
            vx = part.vals.get(x); vy = part.vals.get(y) if y is not None else ZERO
            if vx is None or vy is None: continue
            l = ladd(ladd(vx, vy) if kind == 'sum' else lsub(vx, vy), c)
            if kind == 'ge': ok = F.assume_ge(l)
            else: ok = F.assume_eq(l)
            if not ok: return None
        for (s, j), v in part.bits.items():
            p = part.phi.get(s)
            if p is None: continue
            bs, ext = symbits(p)
            if not F.assume_bit(bs[j] if j < len(bs) else ext, v): return None
            if p in F.eq:
                bs, ext = F.bits(lv(p))
                if not F.assume_bit(bs[j] if j < len(bs) else ext, v): return None
        return st

    def prelin(l): return all(t[0] < n0 for t in l[1])
    def preb(e): return (e >> a0) == 0

    def newphi(part, s, w, sg, rng):
        p = part.phi.get(s)
        if p is None:
            p = part.oldphi.get(s)
            if p is None: p = fresh(('phi', lid, part.n, s), w, sg)
            part.phi[s] = p; part.oldphi[s] = p
            part.iv[s] = rng
            part.nw[s] = 0
        return p
    def widen(part, s, rng):
        lo, hi = part.iv[s]
        a, b = rng
        if a >= lo and b <= hi: return False
        part.nw[s] = n = part.nw.get(s, 0) + 1
        nl, nh = min(lo, a), max(hi, b)
        S = SYMS[part.phi[s]]
        if n >= 2:
            if a < lo: nl = max([t for t in THRESH if t <= a], default=S.lo)
            if b > hi: nh = min([t for t in THRESH if t >= b], default=S.hi)
        if n >= 6:
            if a < lo: nl = S.lo
            if b > hi: nh = S.hi
        part.iv[s] = (max(nl, S.lo), min(nh, S.hi))
        return part.iv[s] != (lo, hi)

    def prefacts(F):
        """what the path into a later partition tells about values from before the loop; kept while every state agrees"""
        r = []
        for sy in F.iv:
            if sy >= n0: continue
            a, b = F.symrng(sy); x, y = st0.F.symrng(sy)
            if a > x: r.append(laddc(lv(sy), -a))
            if b < y: r.append(laddc(lneg(lv(sy)), b))
        have = set(st0.F.ge)
        for l in F.ge:
            if l not in have and prelin(l): r.append(l)
        return r if len(r) <= 24 else r[:24]
    def create(B, mon, entry):
        part = Part(); part.n = len(parts); part.mon = mon; part.phi = {}; part.oldphi = {}; part.iv = {}; part.nw = {}
        part.cands = []; part.bits = {}; part.vals = {}; part.dropped = set(); part.ph = {}
        part.firstF = B.F; part.first = {}; part.eltag = {}
        part.pre = [] if entry else prefacts(B.F)
        keys = roots(I, B, B.frames[-1])
        F = B.F
        bk = B.mem[g][1]
        kphi = None
        part.k0 = 0 if entry else F.const(F.norm(bk))
        if not entry:
            lo, hi = F.rng(F.norm(bk))
            kphi = newphi(part, g, 64, False, (max(lo, 0), (1 << 64) - 1))
        part.wsg = {}
        def leaf(s, a, b, w, sg):
            part.first[s] = b; part.wsg[s] = (w, sg)
            if s == g: v = ZERO if entry else lv(kphi)
            elif prelin(b): v = b
            else:
                v = None
                c = stride.get(s); e = parts0.first.get(s) if parts0 else None
                if c is not None and e is not None and F.prove_eq(b, ladd(e, lscale(bk, c))):
                    v = ladd(e, lscale(lv(kphi), c))
                elif e is not None and prelin(e) and F.prove_eq(b, e): v = e
                if v is None: v = lv(newphi(part, s, w, sg, F.rng(F.norm(b))))
            part.vals[s] = v
            return v
        def batom(s, a, b):
            b = F.rb(b)
            if preb(b): return b
            p = 1 << atom(('phib', lid, part.n, s))
            return p
        parts0 = parts.get(0)
        part.mem, w = traverse(part, B, B, leaf, batom, keys, True)
        part.fresh = True
        if not entry: gencands(part, B.F, part.first)
        return part

    def holds(F, vals, cand):
        kind, x, y, c = cand
        vx = vals.get(x); vy = vals.get(y) if y is not None else ZERO
        if vx is None or vy is None: return False
        l = ladd(ladd(vx, vy) if kind == 'sum' else lsub(vx, vy), c)
        return F.prove_ge(l) if kind == 'ge' else F.prove_eq(l)

    def gencands(part, F, vals):
        """relations between a changed slot and any slot, true in the first state and here"""
        ch = [s for s, v in part.vals.items() if any(t[0] >= n0 for t in v[1])]
        have = set(part.cands) | part.dropped
        names = list(part.vals); deltas = getattr(I, 'deltas', False)
        if len(ch) * len(names) > 6000: names = ch[:60]; ch = ch[:60]
        for i in ch:
            aff = i not in part.phi or i == g
            cs = [('ge', i, None, lneg(part.first[i]))] if i in part.first and prelin(part.first[i]) else []
            if i in part.first and prelin(part.first[i]): cs.append(('le0', i, None, part.first[i]))
            for j in names:
                if j == i: continue
                cs.append(('ge', i, j, ZERO)); cs.append(('ge', j, i, ZERO))
                if deltas and i in part.phi and j in part.phi and i in part.first and j in part.first:
                    d = lsub(part.first[j], part.first[i])
                    if prelin(d) and d != ZERO: cs.append(('ge', i, j, d))
                if vals is not part.first and i in part.phi and j in part.phi and str(j) > str(i):    # one state shows too many coincidences
                    if i in part.first and j in part.first and i in vals and not F.prove_eq(vals[i], part.first[i]):
                        d = lsub(part.first[j], part.first[i])
                        if prelin(d): cs.append(('eq', i, j, d))
                        d = lneg(ladd(part.first[j], part.first[i]))
                        if prelin(d): cs.append(('sum', i, j, d))
            for cd in cs:
                if cd[0] == 'le0': continue
                if cd in have: continue
                if not holds(part.firstF, part.first, cd): continue
                if vals is not part.first and not holds(F, vals, cd): continue
                part.cands.append(cd); have.add(cd); part.changed = True
        for i in ch:
            if i not in part.phi or i == g or i not in part.first: continue
            if part.ph.get(i): continue
            part.ph[i] = True
            w, sg = part.wsg[i]
            bs, ext = part.firstF.bits(part.first[i])
            for j in range(w):
                b = bs[j] if j < len(bs) else ext
                if b in (0, 1) and ('bit', i, j) not in part.dropped:
                    if vals is not part.first:
                        xs, xe = F.bits(vals[i]) if i in vals else ((), None)
                        if (xs[j] if j < len(xs) else xe) != b: continue
                    part.bits[(i, j)] = b; part.changed = True

    def absorb(part, B):
        part.changed = False
        A = st0.copy(); A.mem = part.mem
        keysB = set(roots(I, B, B.frames[-1]))
        keys = [k for k in part.mem if k in keysB or (k[0] == 'obj')]
        for k in keysB:
            if k not in part.mem and k[0] in ('obj', 'g', 'unk'): keys.append(k)
        keys = [k for k in keys if k[0] != 'h']
        F = B.F
        bv = {}
        wsg = {}
        def leaf1(s, a, b, w, sg):
            bv[s] = b; wsg[s] = (w, sg)
            if s not in part.vals:
                part.vals[s] = a
                if part.n == 0 and s not in part.first and prelin(a): part.first[s] = a    # an object first touched inside of the loop
            return a
        traverse(part, A, B, leaf1, lambda s, a, b: a, keys)
        part.wsg.update(wsg)
        for s in part.vals:
            if s not in bv: pass
        # substitution of phis by the back state's values
        sigma = {}
        for s, p in part.phi.items():
            if s in bv: sigma[p] = bv[s]
        if g not in part.phi and part.fresh:
            pass
        def subst(l):
            r = lc(l[0])
            for sy, c in l[1]:
                r = ladd(r, sigma[sy] if sy in sigma else lv(sy), c)
            return r
        new = {}
        kfirst = g not in part.phi
        if kfirst:
            newphi(part, g, 64, False, (0, (1 << 64) - 1))
            part.changed = True
        k = lv(part.phi[g])
        bk = bv.get(g, ZERO)
        for s, b in bv.items():
            if s == g:
                new[s] = k; continue
            a = part.vals[s]
            ok = F.prove_eq(b, subst(a))
            if ok:
                if s in part.phi:
                    if widen(part, s, F.rng(F.norm(b))): part.changed = True
                new[s] = a; continue
            if s in part.phi:
                # already a phi: only its interval matters
                if widen(part, s, F.rng(F.norm(b))): part.changed = True
                new[s] = lv(part.phi[s]); continue
            part.changed = True
            v = None
            if prelin(a) and not (part.n and False):
                e = part.first.get(s)
                d = F.const(lsub(b, a))
                if d is not None and e == a and part.k0 is not None and F.prove_eq(bk, laddc(ZERO if kfirst else k, 1)):
                    if part.n == 0: stride[s] = d
                    v = ladd(a, lscale(laddc(k, -part.k0), d))
            if v is None:
                w, sg = wsg[s]
                ra = part.firstF.rng(part.firstF.norm(part.first[s])) if s in part.first else A.F.rng(A.F.norm(a))
                if s not in part.first and any(t[0] >= n0 for t in a[1]): ra = trange(w, sg)
                rb = F.rng(F.norm(b))
                v = lv(newphi(part, s, w, sg, (min(ra[0], rb[0]), max(ra[1], rb[1]))))
            new[s] = v
        # rebuild
        def leaf2(s, a, b, w, sg): return new[s]
        def batom(s, a, b):
            b2 = F.rb(b)
            p = 1 << atom(('phib', lid, part.n, s))
            if a == p: return a
            if a == b2 or a == b: return a
            part.changed = True
            return p
        mem, w = traverse(part, A, B, leaf2, batom, keys)
        if w.changed: part.changed = True
        # objects reachable only in A vanish
        if set(mem) != set(part.mem): part.changed = True
        part.mem = mem
        part.vals = {s: v for s, v in new.items()}
        n = len(part.pre)
        if n:
            part.pre = [l for l in part.pre if F.prove_ge(l)]
            if len(part.pre) != n: part.changed = True
        # inductive candidates
        keep = []
        for cd in part.cands:
            if holds(F, bv, cd): keep.append(cd)
            else: part.dropped.add(cd); part.changed = True
        part.cands = keep
        for (s, j), v in list(part.bits.items()):
            if s not in bv or s not in part.phi:
                del part.bits[(s, j)]; continue
            bs, ext = F.bits(bv[s])
            if (bs[j] if j < len(bs) else ext) != v:
                del part.bits[(s, j)]; part.dropped.add(('bit', s, j)); part.changed = True
        gencands(part, F, bv)
        part.fresh = False
        return part.changed

    def start(part):
        st = instantiate(part)
        if st is None: return None
        kv = st.mem.get(g, ('i', ZERO, 64, False))
        st.mem[g] = ('i', laddc(kv[1], 1), 64, False)
        return st

    k0 = I.partkey(st0)
    bykey = {}
    p0 = create(st0, dict(st0.mon), True)
    parts[0] = p0; bykey[k0] = p0
    I.quiet += 1
    sexits = getattr(I, 'qexits', 0)
    rounds = 0
    while True:
        rounds += 1
        if rounds > 40:
            import interp
            raise interp.Undecided('loop does not stabilise in ' + fr.inst.name)
        changed = False
        for n in list(parts):
            part = parts[n]
            st = start(part)
            if st is None: continue
            backs, outs = I.explore([st], (fid, depth, head, body))
            for B in backs:
                if B.F.dead: continue
                kk = I.partkey(B)
                q = bykey.get(kk)
                if q is None:
                    q = create(B, dict(B.mon), False)
                    parts[len(parts)] = q; bykey[kk] = q; changed = True
                    if len(parts) > I.maxparts: 
                        import interp
                        raise interp.Undecided('too many loop partitions in ' + fr.inst.name)
                elif absorb(q, B): changed = True
        if not changed: break
    I.quiet -= 1
    res = []
    for n, part in parts.items():
        st = start(part)
        if st is None: continue
        if I.on_loop: I.on_loop(I, st, part)
        backs, outs = I.explore([st], (fid, depth, head, body))
        if I.on_back and not I.quiet:
            for B in backs: I.on_back(I, part, B)
        res += outs
    for o in res:
        o.mem.pop(g, None)
        o.frames[-1].bb = -1 - o.frames[-1].bb
    return res
