"""Numeric domain: linear expressions over symbols with intervals and linear facts, plus a bit-level
(GF(2) polynomial) view of the same integers.

Lin     (c, ((sym, coef), ...))      mathematical value, coefficients integers, symbols sorted
bitexpr int used as a bit set: bit 0 = constant 1, bit k = atom k; xor = exclusive or
"""

class Sym:
    __slots__ = ('id', 'name', 'w', 'signed', 'lo', 'hi', 'bits', 'ext')
    def __init__(s, id, name, w, signed, lo, hi):
        s.id = id; s.name = name; s.w = w; s.signed = signed; s.lo = lo; s.hi = hi; s.bits = None; s.ext = None

SYMS = []
KEYED = {}
BITKEY = {}      # (stripped bits tuple, ext) -> sym id
ATOMS = [None]   # atom id -> description
ATOMKEY = {}
ATOM_OWNERS = {} # atom -> set of sym ids whose bits mention it
ANDOPS = {}      # and-atom -> (e1, e2)
BUSY = set()
CONDDEF = {}     # atom -> condition ('ge'|'eq', lin)

def reset():
    SYMS.clear(); KEYED.clear(); BITKEY.clear(); del ATOMS[1:]; ATOMKEY.clear(); ATOM_OWNERS.clear(); ANDOPS.clear(); CONDDEF.clear()

def trange(w, signed):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)

def fresh(name, w=64, signed=False, lo=None, hi=None):
    a, b = trange(w, signed)
    s = Sym(len(SYMS), name, w, signed, a if lo is None else lo, b if hi is None else hi)
    SYMS.append(s)
    return s.id

ELEM = {}     # symbol of a buffer element -> (type, content tag, index)
def keyed(key, w=64, signed=False, lo=None, hi=None, name=None):
    k = (key, w, signed)
    s = KEYED.get(k)
    if s is None:
        s = fresh(name or key, w, signed, lo, hi)
        KEYED[k] = s
    return s

def atom(key):
    a = ATOMKEY.get(key)
    if a is None:
        a = len(ATOMS); ATOMS.append(key); ATOMKEY[key] = a
    return a

def lc(c): return (c, ())
def lv(s): return (0, ((s, 1),))
ZERO = lc(0); ONE = lc(1)

def ladd(a, b, k=1):
    if not b[1]: return (a[0] + k * b[0], a[1])
    if not a[1] and k == 1: return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, c in b[1]:
        v = d.get(s, 0) + k * c
        if v: d[s] = v
        else: d.pop(s, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))
def lsub(a, b): return ladd(a, b, -1)
def lneg(a): return (-a[0], tuple((s, -c) for s, c in a[1]))
def lscale(a, k):
    if k == 0: return ZERO
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))
def laddc(a, c): return (a[0] + c, a[1])
def is_const(a): return not a[1]

def sname(s):
    n = SYMS[s].name
    return n if isinstance(n, str) else 's%d<%s>' % (s, fmtkey(n))
def fmtkey(k):
    if isinstance(k, tuple): return '.'.join(fmtkey(x) for x in k)[:60]
    return str(k)
def lstr(a):
    r = []
    for s, c in a[1]: r.append(('%+d*' % c if abs(c) != 1 else '+' if c > 0 else '-') + sname(s))
    if a[0] or not r: r.append('%+d' % a[0])
    return ' '.join(r)

def band(e, f):
    if e == 0 or f == 0: return 0
    if e == 1: return f
    if f == 1: return e
    if e == f: return e
    if e == f ^ 1: return 0
    if e > f: e, f = f, e
    a = atom(('and', e, f))
    ANDOPS[a] = (e, f)
    return 1 << a
def bor(e, f): return e ^ f ^ band(e, f)

def atoms_of(e):
    e &= ~1
    r = []
    while e:
        low = e & -e
        r.append(low.bit_length() - 1)
        e ^= low
    return r

def strip(bits, ext):
    n = len(bits)
    while n and bits[n - 1] == ext: n -= 1
    return tuple(bits[:n])

def own(sid, bits, ext):
    m = ext
    for b in bits: m |= b
    for a in atoms_of(m): ATOM_OWNERS.setdefault(a, set()).add(sid)

def symbits(sid):
    """(bits, ext) of a symbol, allocating atoms on first use."""
    s = SYMS[sid]
    if s.bits is None:
        if s.signed:
            bs = [1 << atom((sid, i)) for i in range(s.w)]
            s.bits = tuple(bs[:-1]); s.ext = bs[-1]
        else:
            # respect the symbol's own range
            n = s.w
            if s.lo >= 0 and s.hi >= 0: n = min(n, s.hi.bit_length())
            s.bits = tuple(1 << atom((sid, i)) for i in range(n)); s.ext = 0
        BITKEY[(s.bits, s.ext)] = sid
        own(sid, s.bits, s.ext)
    return s.bits, s.ext

def mkbits(bits, ext, w=64, signed=False):
    """Lin for an integer given by (already reduced) bits."""
    bits = strip(bits, ext)
    if ext == 1:  # negative constant extension: x = ~y, y = ~bits with ext 0
        y = mkbits(tuple(b ^ 1 for b in bits), 0, w, signed)
        return laddc(lneg(y), -1)
    c = 0; rest = list(bits)
    for i, b in enumerate(bits):
        if b == 1: c |= 1 << i; rest[i] = 0
    if ext == 0 and not any(rest): return lc(c)
    k = BITKEY.get((bits, ext))
    if k is not None: return lv(k)
    z = 0
    while z < len(rest) and rest[z] == 0: z += 1
    if ext != 0 and z >= len(rest): rest = []; zz = len(bits)
    sub = tuple(rest[z:])
    sub = strip(sub, ext)
    k = BITKEY.get((sub, ext))
    if k is None:
        n = len(sub)
        if ext == 0:
            k = fresh(('bits', len(SYMS)), max(n, 1), False, 0, (1 << n) - 1)
        else:
            k = fresh(('sbits', len(SYMS)), n + 1, True, -(1 << n), (1 << n) - 1)
        SYMS[k].bits = sub; SYMS[k].ext = ext
        BITKEY[(sub, ext)] = k
        own(k, sub, ext)
    return (c, ((k, 1 << z),))

def badd(x, xe, y, ye, cin, n):
    """ripple adder on two's complement bit strings, n result bits"""
    r = []; c = cin; cost = 0
    for i in range(n):
        a = x[i] if i < len(x) else xe
        b = y[i] if i < len(y) else ye
        t = a ^ b
        r.append(t ^ c)
        if a > 1 and b > 1 and a != b: cost += 1
        if c > 1 and t > 1: cost += 1
        if cost > ADDLIMIT: return None
        c = band(a, b) ^ band(t, c) if c else band(a, b)
    return r
ADDLIMIT = 12


class Facts:
    """Path facts. Copied on fork."""
    __slots__ = ('eq', 'iv', 'ge', 'ne', 'bit', 'bmask', 'dead', '_memo', '_rbm')
    def __init__(s):
        s.eq = {}; s.iv = {}; s.ge = (); s.ne = frozenset(); s.bit = {}; s.bmask = 0; s.dead = False; s._memo = {}; s._rbm = {}
    def copy(s):
        f = Facts.__new__(Facts)
        f.eq = dict(s.eq); f.iv = dict(s.iv); f.ge = s.ge; f.ne = s.ne; f.bit = dict(s.bit); f.bmask = s.bmask; f.dead = s.dead; f._memo = dict(s._memo) if len(s._memo) < 200 else {}; f._rbm = s._rbm
        return f
    # ---- evaluation
    def norm(s, l):
        for _ in range(60):
            hit = False
            for sy, c in l[1]:
                e = s.eq.get(sy)
                if e is not None:
                    l = ladd((l[0], tuple(t for t in l[1] if t[0] != sy)), e, c)
                    hit = True
                    break
            if not hit: return l
        return l
    def symrng(s, sy):
        r = s.iv.get(sy)
        S = SYMS[sy]
        lo, hi = r if r else (S.lo, S.hi)
        if S.bits is not None and s.bit:
            m = S.ext
            for b in S.bits: m |= b
            if m & s.bmask:
                k = ('r', sy)
                br = s._rbm.get(k)
                if br is None:
                    ext = s.rb(S.ext); br = False
                    if ext == 0 or ext == 1:
                        l2 = h2 = 0
                        for i, b in enumerate(S.bits):
                            b = s.rb(b)
                            if b == 1: l2 |= 1 << i; h2 |= 1 << i
                            elif b != 0: h2 |= 1 << i
                        if ext == 1: l2 -= 1 << len(S.bits); h2 -= 1 << len(S.bits)
                        br = (l2, h2)
                    if not BUSY: s._rbm[k] = br
                if br:
                    if lo >= 0 and br[0] >= 0: br = (br[0], br[1] & (1 << hi.bit_length()) - 1) # bits above the bound are zero
                    if br[0] > lo: lo = br[0]
                    if br[1] < hi: hi = br[1]
        return lo, hi
    def rng(s, l):
        lo = hi = l[0]
        for sy, c in l[1]:
            a, b = s.symrng(sy)
            if c > 0: lo += c * a; hi += c * b
            else: lo += c * b; hi += c * a
        return lo, hi
    def const(s, l):
        l = s.norm(l)
        if not l[1]: return l[0]
        lo, hi = s.rng(l)
        return lo if lo == hi else None
    # ---- entailment
    def prove_ge(s, l, depth=3):
        l = s.norm(l)
        if not l[1]: return l[0] >= 0
        if s.rng(l)[0] >= 0: return True
        k = (l, depth)
        m = s._memo.get(k)
        if m is not None: return m
        r = s._fm(l, depth, set()) if s.ge else False
        s._memo[k] = r
        return r
    def _fm(s, l, depth, seen):
        if depth == 0 or l in seen: return False
        seen.add(l)
        terms = dict(l[1])
        for f in s.ge:
            best = None
            for sy, cf in f[1]:
                cl = terms.get(sy)
                if cl is not None and (cl > 0) == (cf > 0):
                    # l*|cf| - f*|cl|
                    a, b = abs(cf), abs(cl)
                    n = lsub(lscale(l, a), lscale(f, b)) if a != 1 else lsub(l, lscale(f, b))
                    if not n[1]:
                        if n[0] >= 0: return True
                        continue
                    if s.rng(n)[0] >= 0: return True
                    if len(n[1]) <= max(len(l[1]), 3) + 1 and s._fm(n, depth - 1, seen): return True
        return False
    def prove_eq(s, a, b=ZERO):
        l = s.norm(lsub(a, b))
        if not l[1]: return l[0] == 0
        if s.const(l) == 0: return True
        if s.beq(a, b): return True
        return s.prove_ge(l) and s.prove_ge(lneg(l))
    def prove_ne(s, a, b=ZERO):
        l = s.norm(lsub(a, b))
        if not l[1]: return l[0] != 0
        lo, hi = s.rng(l)
        if lo > 0 or hi < 0: return True
        if l in s.ne or lneg(l) in s.ne: return True
        if s.ne:
            for x in s.ne:
                x = s.norm(x)
                if x == l or x == lneg(l): return True
        if s.prove_ge(laddc(l, -1)) or s.prove_ge(laddc(lneg(l), -1)): return True
        # bits: single symbol against a constant
        if len(l[1]) == 1:
            sy, c = l[1][0]
            if l[0] % c: return True
            if SYMS[sy].bits is not None and s.bit:
                v = -l[0] // c
                bs, ext = s.bits(lv(sy))
                n = max(len(bs), v.bit_length() + 1)
                for i in range(n):
                    b = bs[i] if i < len(bs) else ext
                    if (b == 0 and (v >> i) & 1) or (b == 1 and not (v >> i) & 1): return True
        return False
    # ---- bits
    def rb(s, e):
        if e < 2 or not s.bit: return e
        r = s._rbm.get(e)
        if r is not None: return r
        m = s.bmask; x = e
        if x & m:
            for _ in range(200):
                h = x & m
                if not h: break
                a = (h & -h).bit_length() - 1
                x ^= (1 << a) ^ s.bit[a]
        r = s._rand(x)
        if not BUSY: s._rbm[e] = r
        return r
    # rewriting stops at an atom that is already being rewritten (facts may relate an atom to its own operands)
    def _rand(s, e):
        # re-evaluate AND atoms whose operands became known
        for a in atoms_of(e):
            op = ANDOPS.get(a)
            if op and a not in BUSY:
                x, y = op
                BUSY.add(a)
                try: rx, ry = s.rb(x), s.rb(y)
                finally: BUSY.discard(a)
                if (rx, ry) != (x, y):
                    n = band(rx, ry)
                    if n != 1 << a:
                        e ^= (1 << a) ^ n
        return e
    def bits(s, l):
        """(bits, ext) of a Lin, reduced under the facts."""
        l = s.norm(l)
        if not l[1]:
            c = l[0]
            n = c.bit_length() + 1
            return [(c >> i) & 1 for i in range(n)], 1 if c < 0 else 0
        if len(l[1]) == 1 and l[1][0][1] < 0:
            k = 0; c1 = l[1][0][1]
            while not (l[0] >> k & 1 or c1 >> k & 1): k += 1
            if k:
                bs, ext = s.bits((l[0] >> k, ((l[1][0][0], c1 >> k),)))
                return [0] * k + list(bs), ext
        if len(l[1]) == 1 and l[1][0][1] < 0:
            # bitwise complements
            c = l[0]; x = (0, ((l[1][0][0], -l[1][0][1]),)); lo, hi = s.rng(x)
            if c == -1 or c > 0 and c & (c + 1) == 0 and lo >= 0 and hi <= c:
                bs, ext = s.bits(x)
                if c == -1: return [b ^ 1 for b in bs], ext ^ 1
                n = c.bit_length()
                return [b ^ 1 for b in list(bs) + [ext] * (n - len(bs))][:n], 0
        acc = None
        terms = sorted(l[1], key=lambda t: t[1] < 0)
        for sy, c in terms:
            bs, ext = symbits(sy)
            lo, hi = s.symrng(sy)
            if lo == hi:
                n = lo.bit_length() + 1
                bs, ext = [(lo >> i) & 1 for i in range(n)], 1 if lo < 0 else 0
            else:
                bs = [s.rb(b) for b in bs]; ext = s.rb(ext)
                if lo >= 0:
                    bs = bs[:hi.bit_length()] if hi >= 0 else bs; ext = 0
                elif hi < 0: ext = 1
            neg = c < 0; c = abs(c)
            # multiply by constant: shift-add
            k = 0; part = None
            while c >> k:
                if (c >> k) & 1:
                    t = ([0] * k + list(bs), ext)
                    part = t if part is None else s._add(part, t)
                    if part is None: return s._opaquebits(l)
                k += 1
            if neg: part = s._add(([b ^ 1 for b in part[0]], part[1] ^ 1), ([1], 0)) if part else None
            acc = part if acc is None else s._add(acc, part)
            if acc is None: return s._opaquebits(l)
        if l[0]:
            c = l[0]; n = c.bit_length() + 1
            acc = s._add(acc, ([(c >> i) & 1 for i in range(n)], 1 if c < 0 else 0))
            if acc is None: return s._opaquebits(l)
        lo, hi = s.rng(l)
        bs, ext = acc
        if lo >= 0:
            ext = 0
            n = hi.bit_length()
            bs = list(bs[:n]) if len(bs) > n else bs
        return list(strip([s.rb(b) for b in bs], s.rb(ext))), s.rb(ext)
    def _opaquebits(s, l):
        """an integer whose bits are not expressible at acceptable cost"""
        lo, hi = s.rng(l)
        sg = lo < 0
        w = max(lo.bit_length(), hi.bit_length()) + 1
        k = keyed(('sum', l), w, sg)
        bs, ext = symbits(k)
        return [s.rb(b) for b in bs], s.rb(ext)
    def _add(s, x, y):
        if x is None or y is None: return None
        xb, xe = x; yb, ye = y
        # disjoint fast path
        n = max(len(xb), len(yb))
        if xe == 0 and ye == 0 and all((i >= len(xb) or xb[i] == 0) or (i >= len(yb) or yb[i] == 0) for i in range(n)):
            return ([(xb[i] if i < len(xb) else 0) ^ (yb[i] if i < len(yb) else 0) for i in range(n)], 0)
        n += 2
        r = badd(xb, xe, yb, ye, 0, n)
        if r is None: return None
        r = [s.rb(b) for b in r] if s.bit else r
        return (list(strip(r[:-1], r[-1])), r[-1])
    def beq(s, a, b):
        """bit-level equality of two Lins (only attempted when both have bit definitions)"""
        a = s.norm(a); b = s.norm(b)
        def has(l): return len(l[1]) <= 4 and all(SYMS[x].bits is not None for x, _ in l[1])
        if not (has(a) and has(b)): return False
        x, xe = s.bits(a); y, ye = s.bits(b)
        return xe == ye and strip(x, xe) == strip(y, ye)
    def from_bits(s, bits, ext):
        bits = [s.rb(b) for b in bits]; ext = s.rb(ext)
        return mkbits(bits, ext)
    # ---- assumptions; return False when contradictory
    def fail(s): s.dead = True; return False
    def set_iv(s, sy, lo, hi):
        a, b = s.symrng(sy)
        lo = max(lo, a); hi = min(hi, b)
        if lo > hi: return s.fail()
        if (lo, hi) == (a, b): return True
        s.iv[sy] = (lo, hi); s._memo = {}
        S = SYMS[sy]
        if S.w <= 8 and lo >= 0 and S.bits is None and lo != hi: symbits(sy)
        if S.bits is not None and lo >= 0 and S.ext == 0:
            n = hi.bit_length()
            for b in S.bits[n:]:
                if not s.assume_bit(b, 0): return False
            # the bits the two ends of the range share
            if lo < hi:
                p = (lo ^ hi).bit_length()
                for i in range(p, min(n, len(S.bits))):
                    if not s.assume_bit(S.bits[i], (lo >> i) & 1): return False
            if lo == hi:
                for i, b in enumerate(S.bits):
                    if not s.assume_bit(b, (lo >> i) & 1): return False
        elif S.bits is not None and S.ext != 0:
            if lo >= 0:
                if not s.assume_bit(S.ext, 0): return False
                n = hi.bit_length()
                for b in S.bits[n:]:
                    if not s.assume_bit(b, 0): return False
            elif hi < 0:
                if not s.assume_bit(S.ext, 1): return False
            if lo == hi:
                for i, b in enumerate(S.bits):
                    if not s.assume_bit(b, (lo >> i) & 1): return False
        if lo == hi and sy not in s.eq:
            s._subst(sy, lc(lo))
        # conditions stored as facts may have become contradictory
        for f in s.ge:
            if any(t[0] == sy for t in f[1]):
                if s.rng(s.norm(f))[1] < 0: return s.fail()
        if s.ne:
            for x in s.ne:
                if any(t[0] == sy for t in x[1]):
                    x = s.norm(x)
                    if not x[1] and x[0] == 0: return s.fail()
        return True
    def _subst(s, sy, l):
        s._memo = {}
        s.eq[sy] = l
        for k, v in list(s.eq.items()):
            if k != sy and any(t[0] == sy for t in v[1]): s.eq[k] = s.norm(v)
        n = []
        for f in s.ge:
            if any(t[0] == sy for t in f[1]):
                f = s.norm(f)
                if not f[1]:
                    if f[0] < 0: s.dead = True
                    continue
            n.append(f)
        s.ge = tuple(n)
        if s.ne:
            ns = set()
            for x in s.ne:
                x = s.norm(x)
                if not x[1]:
                    if x[0] == 0: s.dead = True
                    continue
                ns.add(x)
            s.ne = frozenset(ns)
    def assume_ge(s, l):
        if s.dead: return False
        l = s.norm(l)
        if not l[1]: return True if l[0] >= 0 else s.fail()
        lo, hi = s.rng(l)
        if lo >= 0: return True
        if hi < 0: return s.fail()
        if len(l[1]) == 1:
            sy, c = l[1][0]
            if c > 0: return s.set_iv(sy, -((l[0]) // c), 1 << 200)  # sy >= ceil(-k/c)
            return s.set_iv(sy, -(1 << 200), l[0] // -c)
        if s.prove_ge(l): return True
        if s.prove_ge(laddc(lneg(l), -1)): return s.fail()
        s.ge = s.ge + (l,); s._memo = {}
        # bound tightening
        for sy, c in l[1]:
            a, b = s.symrng(sy)
            rest_hi = hi - (c * b if c > 0 else c * a)
            if c > 0:
                nl = -(rest_hi // c) if rest_hi >= 0 else -(rest_hi // c)
                if nl > a and not s.set_iv(sy, nl, b): return False
            else:
                nh = rest_hi // -c
                if nh < b and not s.set_iv(sy, a, nh): return False
        return not s.dead
    def assume_eq(s, l):
        if s.dead: return False
        l = s.norm(l)
        if not l[1]: return True if l[0] == 0 else s.fail()
        if s.prove_ne(l): return s.fail()
        if len(l[1]) == 1:
            sy, c = l[1][0]
            if l[0] % c: return s.fail()
            v = -l[0] // c
            return s.set_iv(sy, v, v)
        # choose a symbol with coefficient +-1, preferring the newest
        cand = [t for t in l[1] if abs(t[1]) == 1]
        if not cand: return s.assume_ge(l) and s.assume_ge(lneg(l))
        sy, c = max(cand)
        e = lscale((l[0], tuple(t for t in l[1] if t[0] != sy)), -c)
        lo, hi = s.symrng(sy)
        if len(e[1]) == 1 and e[1][0][1] == 1 and e[0] == 0:
            o = e[1][0][0]
            S, O = SYMS[sy], SYMS[o]
            if S.bits is not None or O.bits is not None:
                x, xe = symbits(sy); y, ye = symbits(o)
                for i in range(max(len(x), len(y))):
                    if not s.assume_bit((x[i] if i < len(x) else xe) ^ (y[i] if i < len(y) else ye), 0): return False
                if not s.assume_bit(xe ^ ye, 0): return False
        if sy not in s.eq: s._subst(sy, e)
        if s.dead: return False
        return s.assume_ge(laddc(e, -lo)) and s.assume_ge(laddc(lneg(e), hi))
    def assume_ne(s, l):
        if s.dead: return False
        l = s.norm(l)
        if not l[1]: return True if l[0] != 0 else s.fail()
        if s.prove_eq(l): return s.fail()
        if s.prove_ne(l): return True
        if len(l[1]) == 1:
            sy, c = l[1][0]
            if l[0] % c == 0:
                v = -l[0] // c
                lo, hi = s.symrng(sy)
                # skip over neighbouring excluded values
                if v == lo: return s.set_iv(sy, lo + 1, hi) and s._shave(sy)
                if v == hi: return s.set_iv(sy, lo, hi - 1) and s._shave(sy)
                S = SYMS[sy]
                if S.bits is not None and S.ext == 0 and len(S.bits) == 1:
                    return s.assume_bit(S.bits[0], 1 - v)
        else:
            # l != 0 with l >= 0 known gives l >= 1
            if s.prove_ge(l): return s.assume_ge(laddc(l, -1))
            if s.prove_ge(lneg(l)): return s.assume_ge(laddc(lneg(l), -1))
        s.ne = s.ne | {l}; s._memo = {}
        return True
    def _shave(s, sy):
        for _ in range(70):
            lo, hi = s.symrng(sy)
            hit = False
            for x in s.ne:
                if len(x[1]) == 1 and x[1][0][0] == sy:
                    c = x[1][0][1]
                    if x[0] % c: continue
                    v = -x[0] // c
                    if v == lo and lo < hi: hit = s.set_iv(sy, lo + 1, hi); break
                    if v == hi and lo < hi: hit = s.set_iv(sy, lo, hi - 1); break
                    if v == lo == hi: return s.fail()
            if not hit: return not s.dead
        return not s.dead
    def assume_bit(s, e, v):
        """assume bit expression e == v"""
        if s.dead: return False
        e = s.rb(e) ^ v
        if e == 0: return True
        if e == 1: return s.fail()
        ats = atoms_of(e)
        if len(ats) == 1:
            a = ats[0]; val = e & 1   # atom == val
            return s._bind(a, val)
        # products equal to one: all factors are one
        lin = [a for a in ats if a not in ANDOPS]
        if not lin: 
            return True   # cannot use it
        # an xor of a linear atom that does not occur inside the products
        inner = 0
        for a in ats:
            if a in ANDOPS: inner |= _support(a)
        lin = [a for a in lin if not (inner >> a) & 1 and a not in CONDDEF]
        if not lin: return True
        a = max(lin)
        return s._bindexpr(a, e ^ (1 << a))
    def _bind(s, a, val):
        if a in s.bit:
            return s.assume_bit(s.bit[a], val)
        if not s._bindexpr(a, val): return False
        op = ANDOPS.get(a)
        if op:
            if val == 1:
                if not (s.assume_bit(op[0], 1) and s.assume_bit(op[1], 1)): return False
            else:
                x, y = s.rb(op[0]), s.rb(op[1])
                if x == 1 and not s.assume_bit(y, 0): return False
                if y == 1 and not s.assume_bit(x, 0): return False
        cd = CONDDEF.get(a)
        if cd: return s.assume_cond(cd, val)
        return True
    def _bindexpr(s, a, ex):
        s._memo = {}
        for k, v in list(s.bit.items()):
            if (v >> a) & 1: s.bit[k] = v ^ (1 << a) ^ ex
        s.bit[a] = ex
        s._rbm = {}
        s.bmask |= 1 << a
        for sy in list(ATOM_OWNERS.get(a, ())):
            if sy in s.eq: continue
            lo, hi = s.symrng(sy)
            if lo > hi: return s.fail()
            b = s.iv.get(sy)
            S = SYMS[sy]
            if lo == hi: 
                s.iv[sy] = (lo, hi)
                s._subst(sy, lc(lo))
                if s.dead: return False
            elif (b and (lo, hi) != b) or (not b and (lo, hi) != (S.lo, S.hi)):
                s.iv[sy] = (lo, hi)
        return not s.dead
    def assume_cond(s, cd, val):
        k, l = cd
        if k == 'ge': return s.assume_ge(l) if val else s.assume_ge(laddc(lneg(l), -1))
        if k == 'eq': return s.assume_eq(l) if val else s.assume_ne(l)
        return True
    def eval_cond(s, cd):
        k, l = cd
        if k == 'ge':
            if s.prove_ge(l): return 1
            if s.prove_ge(laddc(lneg(l), -1)): return 0
        elif k == 'eq':
            if s.prove_ne(l): return 0
            if s.prove_eq(l): return 1
        return None
    def settle(s, l):
        """conditions among the bits of a value that were decided after the value was computed"""
        for sy, _ in s.norm(l)[1]:
            S = SYMS[sy]
            if S.bits is None: continue
            for b in set(S.bits) | {S.ext}:
                for a in atoms_of(s.rb(b)):
                    if a in CONDDEF and a not in s.bit:
                        v = s.eval_cond((CONDDEF[a][0], s.norm(CONDDEF[a][1])))
                        if v is not None: s.assume_bit(1 << a, v)
    def _topbit(s, l):
        """a comparison that splits the range of a value at its highest bit is that bit"""
        sy, c = l[1][0]
        S = SYMS[sy]
        if S.bits is None and S.w > 8: return None
        lo, hi = s.symrng(sy)
        # true on [t, hi] (up) or on [lo, t - 1]
        if c > 0: t = -(l[0] // c); up = True
        else: t = l[0] // -c + 1; up = False
        if t == 0 and lo < 0 and hi >= 0: b = symbits(sy)[1] ^ 1
        elif lo >= 0 and t > 0 and t & (t - 1) == 0 and t <= hi < 2 * t:
            bs = symbits(sy)[0]; j = t.bit_length() - 1
            if j >= len(bs): return None
            b = bs[j]
        else: return None
        b = s.rb(b)
        a = atoms_of(b)
        if len(a) != 1: return None
        return b if up else b ^ 1
    def cond(s, kind, l):
        """bit expression for a condition ('ge': l >= 0, 'eq': l == 0)"""
        l = s.norm(l)
        v = s.eval_cond((kind, l))
        if v is not None: return v
        if len(l[1]) == 1:
            # single bit values compare linearly
            sy, c = l[1][0]
            S = SYMS[sy]
            if S.bits is not None and S.ext == 0 and len(S.bits) == 1:
                b = s.rb(S.bits[0])
                if kind == 'eq':
                    v0 = l[0] == 0; v1 = l[0] + c == 0
                else:
                    v0 = l[0] >= 0; v1 = l[0] + c >= 0
                return (1 if v0 else 0) ^ (b if v0 != v1 else 0)
        if kind == 'ge' and len(l[1]) == 1:
            b = s._topbit(l)
            if b is not None: return b
        if kind == 'eq' and l[1][0][1] < 0: l = lneg(l)
        if kind == 'ge':
            n = laddc(lneg(l), -1)
            if n < l:  # canonical polarity
                a = atom(('cond', kind, n)); CONDDEF[a] = (kind, n)
                return s.rb(1 << a) ^ 1
        a = atom(('cond', kind, l)); CONDDEF[a] = (kind, l)
        return s.rb(1 << a)

_SUP = {}
def _support(a):
    r = _SUP.get(a)
    if r is None:
        r = 0
        for x in ANDOPS[a]:
            for b in atoms_of(x):
                r |= 1 << b
                if b in ANDOPS: r |= _support(b)
        _SUP[a] = r
    return r
