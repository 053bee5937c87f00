"""C23: witnesses that must not compile, each next to a twin that must, and a lint of the public signatures."""
import os, re, json, subprocess, tempfile, concurrent.futures
import fw
from fw import *
from checks import check

PRE = '''#![allow(unused)]
use compact_thrift_runtime::*;
use std::borrow::Cow; use std::ffi::{CStr, CString}; use std::io::Read; use std::rc::Rc; use std::sync::Arc;
thrift! { struct Own { 1: required string a; 2: optional binary b; 3: optional Rc<str> c; 4: optional list<string> d; } union Ou { 1: Own A 2: string B } enum En { X = 1; } }
#[derive(Default)] pub struct Bor<'i> { a: Cow<'i, str> }
impl<'i> CompactThriftProtocol<'i> for Bor<'i> {
    const FIELD_TYPE: u8 = 8;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> { self.a.fill_thrift(input) }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> { self.a.write_thrift(output) }
}
type S<'x> = CompactThriftInputSlice<'x>;
'''
LIFE = {'lifetime may not live long enough', 'E0597', 'E0521', 'E0621', 'E0515', 'E0716', 'E0310', 'E0309', 'E0499', 'E0502', 'E0503', 'E0505', 'E0506', 'E0700', 'E0726', 'E0478', 'E0491', 'E0495', 'E0623', 'E0312', 'E0759'}
# results that keep a part of the input: type with the lifetime X and an expression over the input bytes d
KEEP = [('slice source', "S<'X>", 'S::new(d)'), ('slice source from', "S<'X>", 'S::from(d)'), ('slice source into', "S<'X>", 'd.into()'),
        ('remaining', "&'X [u8]", 'S::new(d).as_slice()'), ('clone', "S<'X>", 'S::new(d).clone()'),
        ('binary', "Result<Cow<'X, [u8]>, ThriftError>", 'S::new(d).read_binary()'), ('string', "Result<Cow<'X, str>, ThriftError>", 'S::new(d).read_string()'),
        ('remaining after a read', "&'X [u8]", '{ let mut i = S::new(d); let _ = i.read_byte(); let _ = i.read_binary(); i.as_slice() }')]
for n, t in (('str', "Cow<'X, str>"), ('bytes', "Cow<'X, [u8]>"), ('list', "Vec<Cow<'X, str>>"), ('bytes list', "Vec<Cow<'X, [u8]>>"), ('option', "Option<Cow<'X, str>>"), ('box', "Box<Cow<'X, [u8]>>"), ('rc', "Rc<Cow<'X, str>>"), ('arc', "Arc<Cow<'X, str>>"), ('structure', "Bor<'X>"), ('list of structures', "Vec<Bor<'X>>")):
    KEEP.append(('decoded ' + n, t, '{ let mut i = S::new(d); let r: Result<_, ThriftError> = CompactThriftProtocol::read_thrift(&mut i); r.unwrap() }'))
    KEEP.append(('filled ' + n, t, '{ let mut i = S::new(d); let mut r: TYPE = Default::default(); r.fill_thrift(&mut i).unwrap(); r }'))
    KEEP.append(('filled field ' + n, t, '{ let mut i = S::new(d); let mut r: TYPE = Default::default(); r.fill_thrift_field(&mut i, 8).unwrap(); r }'))
# the same, abstractly: any input of lifetime 'a
GEN = [('any input, binary', "fn f<'a, 'b, I: CompactThriftInput<'a>>(i: &mut I) -> Result<Cow<'X, [u8]>, ThriftError> { i.read_binary() }"),
       ('any input, string', "fn f<'a, 'b, I: CompactThriftInput<'a>>(i: &mut I) -> Result<Cow<'X, str>, ThriftError> { i.read_string() }"),
       ('any input, decoded', "fn f<'a, 'b, I: CompactThriftInput<'a>>(i: &mut I) -> Result<Cow<'X, str>, ThriftError> { CompactThriftProtocol::read_thrift(i) }"),
       ('existing source, remaining', "fn f<'a, 'b>(i: &mut S<'a>) -> &'X [u8] { i.as_slice() }"),
       ('existing source, binary', "fn f<'a, 'b>(i: &mut S<'a>) -> Result<Cow<'X, [u8]>, ThriftError> { i.read_binary() }"),
       ('longer source', "fn f<'a, 'b>(i: S<'a>) -> S<'X> { i }"),
       ('stored', "fn f<'a, 'b>(d: &'a [u8], o: &mut Vec<Cow<'X, str>>) { o.fill_thrift(&mut S::new(d)).unwrap() }"),
       ('stored option', "fn f<'a, 'b>(d: &'a [u8], o: &mut Option<Cow<'X, [u8]>>) { o.fill_thrift(&mut S::new(d)).unwrap() }")]
# whole programs
PROG = [('buffer dropped', "fn main() { let k; { let v = vec![1u8, 65]; k = S::new(&v).read_string(); OUT } FIN }", ('', 'let _ = k;'), ('let _ = k;', '')),
        ('buffer changed', "fn main() { let mut v = vec![1u8, 65]; let k = S::new(&v).read_binary(); A v[0] = 2; B }", ('', 'drop(k);'), ('drop(k);', '')),
        ('remaining after the buffer', "fn main() { let k; { let v = vec![1u8, 65]; k = S::new(&v).as_slice(); OUT } FIN }", ('', 'assert!(k.len() > 0);'), ('assert!(k.len() > 0);', '')),
        ('stack buffer', "fn f() -> Cow<'static, str> { let b = [1u8, 65]; let c = S::new(&b).read_string().unwrap(); OUT }", ('c', ), ('Cow::Owned(c.into_owned())', ))]
# results of a reader and owned results never borrow
OWN = [("fn f<R: Read>(r: &mut R) -> Result<Cow<'static, [u8]>, ThriftError> { r.read_binary() }"), ("fn f<R: Read>(r: &mut R) -> Result<Cow<'static, str>, ThriftError> { r.read_string() }"),
       ("fn f<'a>(d: &'a [u8]) -> Result<Cow<'static, [u8]>, ThriftError> { let mut r: &'a [u8] = d; CompactThriftInput::read_binary(&mut r) }"),
       ("fn f<'a>(d: &'a [u8]) -> Result<Cow<'static, str>, ThriftError> { let mut r: &'a [u8] = d; CompactThriftInput::read_string(&mut r) }"),
       ("fn f<'a>(d: &'a [u8]) -> Cow<'static, str> { let mut r = std::io::Cursor::new(d.to_vec()); CompactThriftProtocol::read_thrift(&mut r).unwrap() }"),
       ("fn f<'a>(d: &mut dyn Read) -> Result<Cow<'static, str>, ThriftError> { d.read_string() }"),
       ("fn f<'a>(d: &'a [u8]) -> Bor<'static> { let mut r: &'a [u8] = d; Bor::read_thrift(&mut r).unwrap() }"),
       ("fn f<'a>(d: &'a [u8]) -> ThriftError { S::new(d).read_string().unwrap_err() } fn s<T: 'static>(_: T) {} fn g<'a>(d: &'a [u8]) { s(f(d)) }")]
for t in ('String', 'Vec<u8>', 'Own', 'Ou', 'En', 'Vec<String>', 'Option<String>', 'Box<str>', 'Rc<str>', 'Arc<str>', 'Vec<Own>', 'bool', 'i64', 'f64', 'Vec<Vec<u8>>', 'Rc<Own>'):
    OWN.append("fn s<T: 'static>(t: T) -> T { t } fn f<'a>(d: &'a [u8]) -> %s { s(CompactThriftProtocol::read_thrift(&mut S::new(d)).unwrap()) }" % t)
# names: (label, program with the value V of type T that must not be accepted, the static one)
NAMES = []
for n, bad, good in (('str', "&'a str", "&'static str"), ('C string', "&'a CStr", "&'static CStr")):
    for how, e in (('from', 'FieldName::from(v)'), ('into', 'v.into()')):
        NAMES.append((n + ' ' + how, "fn f<'a>(v: %s) -> FieldName { %s }" % (bad, e), "fn f<'a>(v: %s) -> FieldName { %s }" % (good, e)))
    NAMES.append((n + ' error', "fn f<'a>(v: %s) -> ThriftError { ThriftError::MissingField(v.into()) }" % bad, "fn f<'a>(v: %s) -> ThriftError { ThriftError::MissingField(v.into()) }" % good))
for t in ('String', '&String', 'CString', '&CString', '&[u8]', 'Vec<u8>', 'Box<str>', 'Box<CStr>', "Cow<'a, str>", "Cow<'a, CStr>", 'Rc<str>', 'Arc<str>', 'Arc<CStr>', '*const std::ffi::c_char', "&'a mut str", "&'a &'a str", 'char', 'usize', '()', 'std::ptr::NonNull<u8>', '&[u8; 4]'):
    NAMES.append((t, "fn f<'a>(v: %s) -> FieldName { FieldName::from(v) }" % t, "fn f<'a>(v: &'static str) -> FieldName { FieldName::from(v) }"))
NAMES.append(('private pointer', "fn f(v: *const std::ffi::c_char) -> FieldName { FieldName { name: v } }", "fn f(v: FieldName) -> FieldName { v.clone() }"))
NAMES.append(('private pointer, read', "fn f(v: &mut FieldName, w: *const std::ffi::c_char) { v.name = w; }", "fn f(v: &mut FieldName, w: FieldName) { *v = w; }"))
NAMECODES = LIFE | {'E0277', 'E0451', 'E0616', 'E0308', 'E0560', 'E0609', 'E0423', 'E0061', 'E0605'}
SEND = ['fn s<T: Send + Sync + %s>() {} fn f() { s::<%s>() }' % (e, t) for t in ('ThriftError', 'FieldName') for e in ("'static", 'Clone')] + [
        "fn s<T: std::error::Error + Send + Sync + 'static>() {} fn f() { s::<ThriftError>() }",
        "fn f(e: ThriftError) -> Box<dyn std::error::Error + Send + Sync> { e.into() }",
        "fn f(e: ThriftError) { std::thread::spawn(move || { let x = e; }); }",
        "fn f(e: &ThriftError) { std::thread::scope(|s| { s.spawn(|| { let x: &ThriftError = e; }); }); }",
        "fn s<T: Send + Sync + 'static>() {} fn f() { s::<compact_thrift_parquet::ParquetError>() }",
        "fn s<T: Send + Sync>() {} fn f<'a>() { s::<S<'a>>() }"]

def compile(ctx, src):
    """the error codes (or texts) reported for a program; [] if it compiles"""
    for _ in range(3):
        r = compile1(ctx, src)
        if all(re.fullmatch(r'E\d{4}', x) for x in r): break      # otherwise not a verdict on the program, possibly a lack of resources
    return r
def compile1(ctx, src):
    d = ctx.dir
    with tempfile.TemporaryDirectory(dir=d) as tmp:
      p = subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w', '--emit=metadata', '-o', tmp + '/libw.rmeta', '--error-format=json', '--cap-lints', 'allow',
                        '--extern', 'compact_thrift_runtime=%s/libcompact_thrift_runtime.rlib' % d, '--extern', 'compact_thrift_parquet=%s/libcompact_thrift_parquet.rlib' % d, '-L', d, '-'],
                       input=PRE + src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d)
    r = []
    for l in p.stderr.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get('level') != 'error' or m['message'].startswith('aborting'): continue
        r.append(m['code']['code'] if m.get('code') else m['message'])
    if p.returncode and not r: r = ['rustc: ' + p.stderr[-300:]]
    return r

def uses(ty, f):
    """apply f to every node of a rustdoc type"""
    if isinstance(ty, dict):
        f(ty)
        for v in ty.values(): uses(v, f)
    elif isinstance(ty, list):
        for v in ty: uses(v, f)
def lifetimes(ty):
    out = set()
    def g(n):
        if isinstance(n.get('lifetime'), str): out.add(n['lifetime'])
        if 'borrowed_ref' in n and not n['borrowed_ref'].get('lifetime'): out.add("'_")
    uses(ty, g); return out
def names(ty, name):
    hit = []
    def g(n):
        r = n.get('resolved_path')
        if r and (r.get('path') or r.get('name', '')).split('::')[-1] == name: hit.append(1)
    uses(ty, g); return bool(hit)
def staticref(ty): return isinstance(ty, dict) and 'borrowed_ref' in ty and ty['borrowed_ref'].get('lifetime') == "'static" and not ty['borrowed_ref'].get('is_mutable')

def lint(ctx, crate):
    """public signatures: a borrowed result is tied to a parameter, a field name comes from static text or another field name"""
    src = os.path.join(fw.REPO, 'runtime' if crate.endswith('runtime') else 'parquet', 'src', 'lib.rs')
    cmd = ['rustdoc', '+nightly', '-Zunstable-options', '--output-format', 'json', '--edition', '2021', '--crate-name', crate, '--cap-lints', 'allow', '-o', ctx.dir, src]
    if crate.endswith('parquet'): cmd += ['--extern', 'compact_thrift_runtime=%s/libcompact_thrift_runtime.rlib' % ctx.dir, '-L', ctx.dir]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=ctx.dir)
    f = os.path.join(ctx.dir, crate + '.json')
    if p.returncode or not os.path.exists(f): return ctx.undecided('rustdoc', p.stdout[-500:])
    D = json.load(open(f)); X = D['index']
    def fn(it, owner, self_, trait, gen):
        F = it['inner']['function']; sig = F['sig']; lab = '%s::%s' % (owner, it['name']) if owner else it['name']
        ins = [t for _, t in sig['inputs']]
        out = sig.get('output')
        if out is None: return
        def isself(t): return isinstance(t, dict) and t.get('generic') == 'Self'
        known = lifetimes(ins) | lifetimes(self_) | lifetimes(trait)
        free = {l for l in lifetimes(out) if l not in ("'static", "'_") and l not in known}
        ctx.ob(not free, 'bound lifetimes', lab, 'the lifetime %s of the result is bound by no parameter' % sorted(free), lab)
        stat = []
        uses(out, lambda n: stat.append(1) if staticref(n) else None)
        if stat: ctx.ob(not lifetimes(self_) - {"'static"}, 'static results', lab, 'a static reference is returned by a type that borrows for a shorter time', lab)
        mentions = names(out, 'FieldName') or (names(self_, 'FieldName') and any('generic' in n and n['generic'] == 'Self' for n in flat(out)))
        if mentions:
            bad = []
            for t in ins:
                u = t
                while isinstance(u, dict) and 'borrowed_ref' in u and not staticref(u): u = u['borrowed_ref']['type']
                if staticref(t) or (isself(u) and names(self_, 'FieldName')) or names(u, 'FieldName') and 'resolved_path' in u: continue
                bad.append(t)
            # the parameter of a From implementation is written as the argument of the trait
            if trait and bad and names(self_, 'FieldName'):
                ta = [a.get('type') for a in ((trait.get('args') or {}).get('angle_bracketed') or {}).get('args', [])]
                if ta and all(staticref(a) for a in ta): bad = []
            ctx.ob(not bad, 'static names', lab, 'a field name can be built from %s' % json.dumps(bad)[:300], lab)
    def flat(ty):
        r = []; uses(ty, r.append); return r
    for k, it in X.items():
        if it['crate_id'] != 0: continue
        I = it['inner']
        if 'impl' in I:
            im = I['impl']
            if im['is_synthetic'] or im['blanket_impl']: continue
            lab = json.dumps(im['for'])
            r = im['for'].get('resolved_path'); lab = (r.get('path') if r else lab[:40])
            for j in im['items']:
                x = X.get(str(j))
                if x and 'function' in x['inner']: fn(x, lab + (' as ' + im['trait']['path'] if im['trait'] else ''), im['for'], im['trait'] or {}, im['generics'])
        elif 'trait' in I:
            for j in I['trait']['items']:
                x = X.get(str(j))
                if x and 'function' in x['inner']: fn(x, it['name'], {}, {'lifetime_params': [{'lifetime': p['name']} for p in I['trait']['generics']['params'] if 'lifetime' in p['kind']]}, I['trait']['generics'])
        elif 'module' in I:
            for j in I['module']['items']:
                x = X.get(str(j))
                if x and 'function' in x['inner']: fn(x, it['name'] if not I['module']['is_crate'] else '', {}, {}, {})
        elif 'struct' in I and it['name'] == 'FieldName':
            k = I['struct']['kind']
            fs = k.get('plain', {}).get('fields', []) if isinstance(k, dict) else []
            fs = fs or ([x for x in k.get('tuple', []) if x is not None] if isinstance(k, dict) else [])
            vis = [str(f) for f in fs if str(f) in X and X[str(f)]['visibility'] == 'public']
            ctx.ob(not vis, 'private name', 'FieldName', 'the pointer of a field name is public')

@check('C23', 'other', 'compile-fail witnesses: for every operation that returns a part of the input, a function generic over two unrelated lifetimes that returns the result with the other lifetime must be rejected by the borrow checker while its twin with the same lifetime compiles; field name constructors from non-static text must be rejected while the static twin compiles; owned and reader results must satisfy \'static; in addition every public signature (rustdoc) must tie the lifetimes of its result to a parameter and build field names only from static references',
       'type-level compile-fail witnesses with compiling twins, checked by rustc against the current crates, and a lint over all public signatures',
       'Witnesses are generic in the lifetimes, so each decides its operation for all programs; operations not in the list are covered by the signature lint. Provenance of the bytes inside unsafe code is decided by C04 and C17.',
       floors={'rejected': 60, 'accepted': 60, 'owned': 20, 'shared': 8, 'bound lifetimes': 60, 'static names': 2, 'private name': 1})
def c23(ctx):
    jobs = []
    def fill(t, x): return t.replace("'X", "'" + x)
    def keep(t, e, x): return "fn f<'a, 'b>(d: &'a [u8]) -> %s { %s }" % (fill(t, x), fill(e.replace('TYPE', t), x))
    for n, t, e in KEEP:
        jobs.append((n, keep(t, e, 'b'), keep(t, e, 'a'), LIFE))
        jobs.append((n + ', static', keep(t, e, 'static'), keep(t, e, 'a'), LIFE))
    for n, s in GEN:
        jobs.append((n, fill(s, 'b'), fill(s, 'a'), LIFE))
        jobs.append((n + ', static', fill(s, 'static'), fill(s, 'a'), LIFE))
    for n, s, bad, good in PROG:
        def put(x):
            r = s
            if len(x) == 2: r = r.replace('OUT', x[0]).replace('FIN', x[1]).replace(' A ', ' %s ' % x[0]).replace(' B ', ' %s ' % x[1])
            else: r = r.replace('OUT', x[0])
            return r
        jobs.append((n, put(bad), put(good), LIFE))
    for n, bad, good in NAMES: jobs.append(('name: ' + n, bad, good, NAMECODES))
    todo = {s for _, a, b, _ in jobs for s in (a, b)} | set(OWN) | set(SEND) | {''}
    with concurrent.futures.ThreadPoolExecutor(8) as ex: res = dict(zip(sorted(todo), ex.map(lambda s: compile(ctx, s), sorted(todo))))
    if res['']: return ctx.undecided('prelude', 'the common part of the witnesses does not compile: %s' % res[''])
    for n, bad, good, codes in jobs:
        ctx.ob(not res[good], 'accepted', n, 'the twin of the witness does not compile (%s): %s' % (res[good][:3], good))
        r = res[bad]
        ctx.ob(bool(r) and all(x in codes for x in r), 'rejected', n, ('this program compiles: ' if not r else 'rejected for another reason (%s): ' % r[:3]) + bad)
    for s in OWN: ctx.ob(not res[s], 'owned', s, 'an owned result is taken to borrow from the input (%s): %s' % (res[s][:3], s))
    for s in SEND: ctx.ob(not res[s], 'shared', s, 'an error cannot be sent or shared (%s): %s' % (res[s][:3], s))
    ctx.extra['witnesses'] = len(todo)
    for c in ('compact_thrift_runtime', 'compact_thrift_parquet'): lint(ctx, c)
