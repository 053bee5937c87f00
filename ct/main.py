"""python3 ct/main.py <property id> : runs one check against /repo's current tree"""
import sys, os, time, json, traceback, tempfile, shutil, atexit
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw, checks

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = fw.Ctx(pid, tier, seed)
    os.makedirs(fw.TARGET, exist_ok=True)
    d = os.environ.get('CT_DUMP')
    debug = checks.CHECKS[pid].get('debug', False)
    if d: ctx.dir = d + ('-on' if debug else '')
    else:
        ctx.dir = tempfile.mkdtemp(prefix='mir-', dir=fw.TARGET)
        atexit.register(shutil.rmtree, ctx.dir, True)
    info = checks.CHECKS[pid]
    try:
        if not d: fw.frontend(ctx.dir, debug)
        info['fn'](ctx)
    except fw.Front as e:
        ctx.undecided('frontend', 'the current tree does not compile in the analysis configuration:\n%s' % e)
    except Exception:
        ctx.undecided('internal', traceback.format_exc())
    for rule, n in info.get('floors', {}).items():
        got = ctx.rules.get(rule, [0, 0])[0]
        if got < n and not ctx.viols: ctx.undecided('floor:' + rule, 'only %d obligations of kind "%s" were generated, at least %d expected: an anchor is missing' % (got, rule, n))
    if ctx.n == 0: ctx.undecided('empty', 'no obligation was generated')
    known = {}
    if os.path.exists(fw.KNOWN):
        for k in json.load(open(fw.KNOWN)):
            if k.get('status') == 'known' and k['property'] == pid: known[k['key']] = k
    new = []
    for k, v in sorted(ctx.viols.items()):
        if k in known: print('KNOWN-FINDING: property=%s %s' % (pid, known[k].get('what', k)))
        else: new.append((k, v))
    rd = os.path.join(fw.TARGET, 'replay'); os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, pid + '.json')
    if new:
        json.dump([dict(id=k, **v) for k, v in new], open(path, 'w'), indent=1, default=str)
    lib = ctx._lib; fns = sorted({(lib if id(lib) == p else ctx._schema).insts[i].name for p, i in ctx.fns if (lib is not None and id(lib) == p) or (ctx._schema is not None and id(ctx._schema) == p)})
    user = [f for f in fns if 'compact_thrift' in f or 'ct_' in f]
    cov = dict(obligations=ctx.n, discharged=ctx.ok, checker_cmd='python3 ct/main.py ' + pid, trusted_base=info.get('trusted', TRUSTED),
               rules={k: {'obligations': a, 'discharged': b} for k, (a, b) in sorted(ctx.rules.items())},
               functions_analysed=len(fns), entry_points=ctx.roots_done, paths=ctx.paths, abstract_steps=ctx.steps,
               rule=info['rule'], functions_sample=user[:25], samples=ctx.samples or [info['rule']],
               unmodelled_callees=dict(sorted(ctx.opaque.items())[:40]), violations_found=[k for k, _ in new][:50])
    cov.update(ctx.extra)
    if info['level'] == 'other': cov['explanation'] = info['rule']
    ev = dict(property=pid, tier=tier, seed=seed, level=info['level'], coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=info.get('assume', ASSUME), violations=len(new))
    os.makedirs(os.environ.get('CT_EVID', os.path.join(fw.HERE, 'evidence')), exist_ok=True)
    json.dump(ev, open(os.path.join(os.environ.get('CT_EVID', os.path.join(fw.HERE, 'evidence')), pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d functions, %d entry points, %.1fs' % (pid, ctx.n, ctx.ok, len(fns), ctx.roots_done, time.time() - t0))
    for k, v in new[:20]:
        print('  %s' % k)
        if v['where']: print('     at %s' % v['where'])
        if v['msg']: print('     %s' % str(v['msg'])[:1500])
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush(); os._exit(cleanup(ctx, d, 1))
    sys.stdout.flush(); os._exit(cleanup(ctx, d, 0))
def cleanup(ctx, d, rc):
    if not d: shutil.rmtree(ctx.dir, True)
    return rc
TRUSTED = ['rustc nightly: the MIR it produces for the current source (monomorphised, overflow checks on; debug assertions on for the panic checks and off for all others)',
           'ct/: the abstract interpreter and its models of std functions', 'contracts of std traits (Read::read_exact, Write::write_all, Seek)']
ASSUME = ['allocation does not fail', 'std behaves as documented; user supplied readers and writers return Ok or Err and respect their documented contracts']
main()
