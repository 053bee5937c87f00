"""C34: effects: nothing outside the arguments is read or changed by the library, and nothing is remembered."""
import re
import fw
from fw import *
from checks import check
import c_wit

# functions of the standard library that consult or change something outside their arguments
EFFECT = [(r'std::thread::|LocalKey|thread_local', 'thread-local state or threads'), (r'std::time::|::(Instant|SystemTime)::', 'the clock'),
          (r'std::env::', 'the environment'), (r'std::process::|std::os::', 'the process'), (r'std::fs::|std::net::', 'files or the network'),
          (r'std::io::(stdio|stdin|stdout|stderr|_print|_eprint|Stdin|Stdout|Stderr|attempt_print)|::print_to', 'the standard streams'),
          (r'std::panic::(set_hook|take_hook|catch_unwind)|std::panicking::(set_hook|take_hook|panicking|try|catch_unwind|panic_count)', 'the panic state'),
          (r'std::backtrace::', 'process state'),
          (r'(hash(_|::)(map|set)|Hash(Map|Set)\b).*::(iter|keys|values|drain|retain|into_)', 'an iteration in random order')]
EFFECT = [(re.compile(a), b) for a, b in EFFECT]
STOP = re.compile(r'RandomState|DefaultHasher')      # random, but only seen through an iteration
FOREIGN = re.compile(r'^ct_harness::opaque_')         # the harness's stand-ins for the source and the sink
def effect(n):
    for r, w in EFFECT:
        if r.search(n): return w
def statics(x, out):
    """statics mentioned by a body: (name, whether they can change)"""
    if isinstance(x, dict):
        if 'static' in x: m = x.get('mem'); out.append((x['static'], m is None or bool(m.get('mut'))))
        for v in x.values(): statics(v, out)
    elif isinstance(x, list):
        for v in x: statics(v, out)
def scan(ctx, P, what):
    roots = [r[1] for r in P.roots if not (what == 'schema' and re.search(r'print|\bmain\b', P.insts[r[1]].name))]
    seen = {}; w = [(r, None) for r in roots]
    for r in set(roots): ctx.ob(True, 'entry point', '%s:%d' % (what, r))
    g = fw.callgraph(P)
    while w:
        x, frm = w.pop()
        if x in seen: continue
        seen[x] = frm; i = P.insts[x]
        if STOP.search(i.defn): continue
        w += [(y, x) for y in g[x]]
    def path(x):
        p = []
        while x is not None: p.append(P.insts[x].name); x = seen[x]
        return ' <- '.join(p[:6])
    for x in sorted(seen):
        i = P.insts[x]
        e = effect(i.defn)
        # reported where user code reaches the function
        if not i.user: 
            ctx.ob(e is None, 'effect', '%s:%s' % (what, i.defn), '%s is consulted or changed: %s' % (e, path(x)), P.insts[seen[x]].name if seen[x] is not None else i.name)
        elif not i.body: ctx.ob(bool(FOREIGN.match(i.defn)) or bool(i.intrinsic), 'foreign', '%s:%s' % (what, i.defn), 'a function without a body is called: %s' % path(x), i.name)
        if not i.body: continue
        ss = []; statics(i.blocks, ss)
        for n, mut in ss: ctx.ob(not mut, 'static', '%s:%s' % (what, n), 'the static %s, which can change, is used: %s' % (n, path(x)), i.name)
        ctx.ob(True, 'function', '%s:%d' % (what, x))
    ctx.roots_done += len(roots); ctx.fns |= {(id(P), x) for x in seen}

@check('C34', 'proof', 'effects over the call graph of every monomorphic entry point: no function that is reached uses a static that can change (static mut, interior mutability) or calls a function of the standard library that keeps or consults outside state (thread-locals, clock, environment, randomness by iteration order, files, standard streams); witness programs: each bundled Parquet type can be sent to and shared between threads',
       'effect analysis over the MIR call graph, and compile-pass witnesses',
       'Sound for all histories and threads within the trusted base; what the source or sink does is theirs; addresses of allocations are not tracked.',
       floors={'entry point': 700, 'function': 2000, 'threads': 40})
def c34(ctx):
    scan(ctx, ctx.lib, 'lib'); scan(ctx, ctx.schema, 'schema')
    ts = {'compact_thrift_parquet::EncodingSet', 'compact_thrift_parquet::ParquetError'}
    for T in ctx.lib.types:
        if T['k'] == 'adt' and T['name'].startswith('compact_thrift_parquet::format::') and '<' not in T['s']: ts.add(T['name'])
    ts = sorted(ts)
    src = lambda t: "fn s<T: Send + Sync + 'static>() {} fn f() { s::<%s>() }" % t
    bad = c_wit.compile(ctx, ''.join('mod m%d { %s }\n' % (k, 'fn s<T: Send + Sync + \'static>() {} pub fn f() { s::<%s>() }' % t) for k, t in enumerate(ts)))
    for t in ts:
        r = c_wit.compile(ctx, src(t)) if bad else []
        if r and not all(x == 'E0277' for x in r): 
            ctx.undecided('threads %s' % t, str(r)[:200]); continue
        ctx.ob(not r, 'threads', t, '%s cannot be sent to or shared with another thread' % t, t)
