"""Framework shared by the checks: front end, analysis contexts, obligations, evidence, known findings."""
import os, sys, json, time, subprocess, traceback, shutil, tempfile, hashlib
sys.setrecursionlimit(20000)
import dom, prog, interp, proto
from dom import *
from interp import Undecided
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CT_REPO', '/repo')
TARGET = os.environ.get('CT_TARGET', os.path.join(HERE, 'target'))
KNOWN = os.path.join(HERE, 'known-findings.json')

def build_driver():
    src = os.path.join(HERE, 'driver', 'main.rs')
    drv = os.path.join(TARGET, 'ct-driver'); stamp = drv + '.stamp'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(drv) and os.path.exists(stamp) and open(stamp).read() == h: return drv
    os.makedirs(TARGET, exist_ok=True)
    tmp = drv + '.%d' % os.getpid()
    subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp], check=True, cwd=TARGET, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.replace(tmp, drv)
    open(stamp, 'w').write(h)
    return drv

class Front(Exception): pass

def frontend(out, debug=False):
    drv = build_driver()
    env = dict(os.environ, CT_DRIVER=drv, CT_REPO=REPO, CT_DA='on' if debug else 'off')
    p = subprocess.run(['bash', os.path.join(HERE, 'tools', 'frontend.sh'), out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise Front(p.stdout[-4000:])

class Ctx:
    def __init__(s, pid, tier, seed):
        s.id = pid; s.tier = tier; s.seed = seed
        s.n = 0; s.ok = 0; s.rules = {}; s.viols = {}; s.fns = set(); s.roots_done = 0; s.calls = 0
        s.samples = []; s.assume = []; s.dir = None; s._lib = None; s._schema = None; s.paths = 0; s.steps = 0
        s.opaque = {}; s.extra = {}
    # ---- programs
    @property
    def lib(s):
        if s._lib is None: s._lib = prog.Prog(os.path.join(s.dir, 'lib.json'))
        return s._lib
    @property
    def schema(s):
        if s._schema is None: s._schema = prog.Prog(os.path.join(s.dir, 'schema.json'))
        return s._schema
    # ---- obligations
    def ob(s, ok, rule, key, msg='', where='', detail=None):
        s.n += 1
        r = s.rules.setdefault(rule, [0, 0]); r[0] += 1
        if ok: s.ok += 1; r[1] += 1
        else: s.viol(rule, key, msg, where, detail)
        return ok
    def viol(s, rule, key, msg='', where='', detail=None):
        k = '%s:%s' % (rule, key)
        if k not in s.viols: s.viols[k] = dict(rule=rule, key=key, msg=msg, where=where, detail=detail)
    def undecided(s, key, msg): 
        s.n += 1
        s.rules.setdefault('analysis', [0, 0])[0] += 1
        s.viol('undecided', key, msg)
    def sample(s, x):
        if len(s.samples) < 12: s.samples.append(x)
    # ---- running the interpreter
    def fresh(s, P=None):
        dom.reset()
    def run(s, P, inst, hook=None, monitors=(), args=None, setup=None, before=None, **kw):
        """analyse one function from arbitrary (or given) arguments. Returns the Interp or None (undecided -> violation)"""
        dom.reset(); interp.UNCHECKED.clear()
        I = interp.Interp(P, hook=hook, monitors=monitors, **kw)
        I.ctx = s
        if setup: setup(I)
        try:
            st = interp.State()
            a = [I.mk_top(inst.locals[i + 1], ('arg', i)) for i in range(inst.argc)]
            if args: a = args(I, st, a)
            if before: before(I, st, a)
            I.args0 = a
            I.run(inst, a, st)
        except Undecided as e:
            s.undecided(inst.name, 'analysis gave up: %s' % e); return None
        except interp.Fork:
            s.undecided(inst.name, 'internal fork'); return None
        except RecursionError:
            if os.environ.get('CT_TB'): traceback.print_exc(limit=-60)
            s.undecided(inst.name, 'analysis recursion'); return None
        s.count(P, I)
        return I
    def count(s, P, I):
        s.roots_done += 1
        s.paths += I.paths + 1; s.steps += I.steps
        for k in I.inlined: s.fns.add((id(P), k))
        for k, v in I.opaque.items(): s.opaque[k] = s.opaque.get(k, 0) + v
    def where(s, inst): return inst.name
    def par(s, items, f, jobs=8):
        """f(item) for all items in forked processes; the obligations they report are merged in order. Returns the results"""
        import pickle
        items = list(items); jobs = max(1, min(jobs, os.cpu_count() or 1, len(items)))
        procs = []
        for j in range(jobs):
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r); code = 1
                try:
                    out = []
                    for k in range(j, len(items), jobs):
                        s.n = s.ok = s.roots_done = s.paths = s.steps = 0; s.rules = {}; s.viols = {}; s.fns = set(); s.opaque = {}; s.samples = []
                        try: res = f(items[k])
                        except Undecided as e: s.undecided('par', 'analysis gave up: %s' % e); res = None
                        except Exception: s.undecided('internal', traceback.format_exc()); res = None
                        out.append((k, res, s.n, s.ok, s.roots_done, s.paths, s.steps, s.rules, s.viols, s.fns, s.opaque, s.samples))
                    with os.fdopen(w, 'wb') as h: h.write(pickle.dumps(out))
                    code = 0
                finally: os._exit(code)
            os.close(w); procs.append((pid, r))
        outs = {}
        for pid, r in procs:
            with os.fdopen(r, 'rb') as h: d = h.read()
            os.waitpid(pid, 0)
            if not d: s.undecided('parallel', 'an analysis process ended without a result'); continue
            for x in pickle.loads(d): outs[x[0]] = x
        res = []
        for k in range(len(items)):
            x = outs.get(k)
            if x is None: res.append(None); continue
            s.n += x[2]; s.ok += x[3]; s.roots_done += x[4]; s.paths += x[5]; s.steps += x[6]
            for q, (a, b) in x[7].items():
                r = s.rules.setdefault(q, [0, 0]); r[0] += a; r[1] += b
            for q, v in x[8].items(): s.viols.setdefault(q, v)
            s.fns |= x[9]
            for q, v in x[10].items(): s.opaque[q] = s.opaque.get(q, 0) + v
            s.samples = (s.samples + x[11])[:12]
            res.append(x[1])
        return res

def tracestr(st): return [str(x) for x in st.notes()][-30:]

# ---------------------------------------------------------------- recursion
def callgraph(P):
    g = getattr(P, '_cg', None)
    if g is None:
        g = P._cg = [P.callees(i) for i in P.insts]
    return g
def reach(P, roots):
    g = callgraph(P); seen = set(); w = list(roots)
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x); w += g[x]
    return seen
def sccs(P, nodes):
    """nontrivial strongly connected components of the call graph restricted to nodes"""
    g = callgraph(P)
    idx = {}; low = {}; on = set(); st = []; out = []; n = [0]
    for r in sorted(nodes):
        if r in idx: continue
        work = [(r, iter([y for y in g[r] if y in nodes]))]
        idx[r] = low[r] = n[0]; n[0] += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for y in it:
                if y not in idx:
                    idx[y] = low[y] = n[0]; n[0] += 1; st.append(y); on.add(y)
                    work.append((y, iter([z for z in g[y] if z in nodes]))); adv = True; break
                elif y in on: low[v] = min(low[v], idx[y])
            if adv: continue
            work.pop()
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    x = st.pop(); on.discard(x); c.append(x)
                    if x == v: break
                if len(c) > 1 or v in g[v]: out.append(sorted(c))
    return out

def result_outcomes(I, st, fr, name, args, dty, x, argtys):
    """outcomes of an abstracted call: everything reachable through &mut arguments is unknown afterwards"""
    P = I.P
    for v, t in zip(args, argtys): I.havoc(st, v, t)
    T = P.types[dty]
    if T['k'] == 'adt' and T['name'].endswith('result::Result'):
        outs = []
        err = st.copy()
        for i, v in enumerate(T['variants']):
            z = st if v['name'] == 'Ok' else err
            val = ('en', dty, i, (I.mk_top(v['fields'][0][1], I.origin('rec')),))
            if z is err: z.mem[('g', 'lasterr')] = val[3][0]
            I.event(z, ('call', name), 'ok' if v['name'] == 'Ok' else 'err', args, val[3][0])
            outs.append((z, val))
        return outs
    I.event(st, ('call', name), 'ok', args, None)
    return [(st, I.mk_top(dty, I.origin('rec')))]

class RecCut:
    """Calls into call-graph cycles are cut; the integer/bool arguments they are reached with are collected, and
    every member is analysed on its own from the collected argument ranges (fixpoint with widening)."""
    def __init__(s, P, nodes, hook=None):
        s.P = P; s.hook = hook
        s.members = set()
        for c in sccs(P, nodes):
            if any(P.insts[k].user for k in c): s.members |= set(c)
        s.ctxt = {}; s.dirty = []; s.widen = {}
        s.oncall = None
    def __call__(s, I, st, inst, args, dty, x):
        if inst.id in s.members and inst.body:
            s.record(I, st, inst, args)
            fr = st.frames[-1]
            if s.oncall:
                r = s.oncall(I, st, inst, args, dty, x)
                if r is not None: return r
            return result_outcomes(I, st, fr, inst.defn, args, dty, x, [I.op_ty(fr, o) for o in x['args']])
        if s.hook: return s.hook(I, st, inst, args, dty, x)
        return None
    def record(s, I, st, inst, args):
        F = st.F
        new = []
        for v in args:
            if v[0] == 'i': new.append(F.rng(F.norm(v[1])))
            elif v[0] == 'b':
                e = F.rb(v[1]); new.append((e, e) if e in (0, 1) else (0, 1))
            else: new.append(None)
        s.join(inst.id, new)
    def join(s, k, new):
        old = s.ctxt.get(k)
        if old is None:
            s.ctxt[k] = new; s.dirty.append(k); return
        ch = False; r = []
        w = s.widen[k] = s.widen.get(k, 0)
        for a, b in zip(old, new):
            if a is None or b is None: r.append(None); continue
            lo, hi = min(a[0], b[0]), max(a[1], b[1])
            if (lo, hi) != a:
                ch = True
                if w > 3:
                    import joins
                    if lo < a[0]: lo = max([t for t in joins.THRESH if t <= lo], default=lo)
                    if hi > a[1]: hi = min([t for t in joins.THRESH if t >= hi], default=hi)
                if w > 40: lo, hi = -(1 << 63), (1 << 64) - 1
            r.append((lo, hi))
        if ch:
            s.ctxt[k] = r; s.widen[k] = w + 1
            if k not in s.dirty: s.dirty.append(k)
    def argsfor(s, k):
        rs = s.ctxt[k]
        def f(I, st, a):
            out = []
            for v, r in zip(a, rs):
                if r is not None and v[0] == 'i':
                    st.F.assume_ge(laddc(v[1], -r[0])); st.F.assume_ge(laddc(lneg(v[1]), r[1]))
                elif r is not None and v[0] == 'b' and r[0] == r[1]: v = ('b', r[0])
                out.append(v)
            return out
        return f

# ---------------------------------------------------------------- roots
class Roots:
    """classification of the driver's root rows"""
    def __init__(s, P):
        s.P = P; s.fn = {}; s.meth = []
        for r in P.roots:
            if len(r) > 2: s.meth.append((r[0], P.insts[r[1]], r[2], r[3], r[4]))
            else: s.fn[r[0].split('::')[-1]] = P.insts[r[1]]
    def methods(s, *names):
        return [(l, i, t, m) for l, i, t, m, mk in s.meth if m in names]
DECODE = ('read_thrift', 'fill_thrift', 'fill_thrift_field')
ENCODE = ('write_thrift', 'write_thrift_field')
def isread(n): return n[:2] in ('s_', 'r_', 'a_') and n[2:6] in ('read', 'skip')
