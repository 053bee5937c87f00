// compact-thrift static-analysis front end.
//
// A rustc driver (rustc_public on nightly) that compiles one crate with the flags it is given and
// dumps the monomorphised MIR of everything reachable from a set of roots as JSON:
//   CT_OUT    output file
//   CT_CRATE  name of the crate whose compilation triggers the dump (others compile normally)
//   CT_ROOTS  "mod:<name>"  every fn whose path contains ::<name>::  |  "all" every non generic local fn
//   CT_IMPLS  "1": additionally root every method of every non generic impl of CompactThriftProtocol for
//             the input/output types named by the harness
// It resolves callees, evaluates constants and types, and follows calls into std down to a list of
// prefixes at which it stops (formatting, allocator internals, panicking machinery, ...).
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_hir;

use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::ops::ControlFlow;

enum J { Null, B(bool), N(String), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn n<T: std::fmt::Display>(x: T) -> J { J::N(x.to_string()) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => o.push_str(x),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } let _ = write!(o, "\"{}\":", k); x.w(o); } o.push('}'); }
        }
    }
}

// Paths at which the walk does not descend: the analyser has a model or treats the call as opaque.
const STOP: &[&str] = &[
    "std::fmt", "core::fmt", "alloc::fmt", "core::panicking", "std::panicking", "std::rt", "std::io", "std::fs",
    "alloc::raw_vec", "alloc::alloc", "std::alloc", "core::str::", "alloc::string", "alloc::str", "std::sys", "std::sync",
    "core::unicode", "std::ffi", "core::ffi", "alloc::ffi", "alloc::rc", "alloc::sync", "alloc::vec::Vec", "alloc::boxed",
    "core::num::fmt", "alloc::collections", "std::collections", "core::hash", "std::env", "std::process",
    "core::slice::sort", "core::slice::memchr", "core::ub_checks", "core::intrinsics", "core::alloc",
    "alloc::slice", "alloc::borrow", "core::arch", "core::core_arch", "core::mem::drop",
];

struct D {
    types: HashMap<Ty, usize>, tlist: Vec<Option<J>>, tq: VecDeque<(Ty, usize)>,
    insts: HashMap<Instance, usize>, iq: VecDeque<(Instance, usize)>, ilist: Vec<Option<J>>,
    allocs: HashMap<String, usize>,
}

fn stopped(name: &str) -> bool {
    // the blanket conversions only call the implementation of From
    if (name.ends_with(">>::into") && name.contains(" as std::convert::Into<")) || (name.ends_with(">>::try_into") && name.contains(" as std::convert::TryInto<")) { return false; }
    // name of the form "<core::.. as ..>::f" or "core::...": look at the self path
    let t = name.trim_start_matches(|c| c == '<' || c == '&' || c == '*' || c == '(' );
    let t = t.strip_prefix("mut ").unwrap_or(t);
    let t = t.strip_prefix("const ").unwrap_or(t);
    STOP.iter().any(|p| t.starts_with(p))
}

impl D {
    fn ty(&mut self, t: Ty) -> J { n(self.tyi(t)) }
    fn tyi(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) { return *i; }
        let i = self.tlist.len();
        self.types.insert(t, i);
        self.tlist.push(None);
        self.tq.push_back((t, i));
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) { return *k; }
        let k = self.ilist.len();
        self.insts.insert(i, k);
        self.ilist.push(None);
        self.iq.push_back((i, k));
        k
    }
    fn emit_ty(&mut self, t: Ty) -> J {
        let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", t)))];
        if let Ok(l) = t.layout() {
            let sh = l.shape(); o.push(("size", n(sh.size.bytes())));
            if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &sh.fields { o.push(("offs", J::A(offsets.iter().map(|x| n(x.bytes())).collect()))); }
        }
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(i) => { o.push(("k", s("int"))); o.push(("signed", J::B(true))); o.push(("bits", n(i.num_bytes() * 8))); }
                RigidTy::Uint(i) => { o.push(("k", s("int"))); o.push(("signed", J::B(false))); o.push(("bits", n(i.num_bytes() * 8))); }
                RigidTy::Float(_) => o.push(("k", s("float"))),
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Slice(e) => { o.push(("k", s("slice"))); let e = self.ty(e); o.push(("elem", e)); }
                RigidTy::Array(e, c) => {
                    o.push(("k", s("array"))); let e = self.ty(e); o.push(("elem", e));
                    o.push(("len", c.eval_target_usize().map(n).unwrap_or(J::Null)));
                }
                RigidTy::RawPtr(e, m) => { o.push(("k", s("ptr"))); let e = self.ty(e); o.push(("to", e)); o.push(("mut", J::B(m == Mutability::Mut))); }
                RigidTy::Ref(_, e, m) => { o.push(("k", s("ref"))); let e = self.ty(e); o.push(("to", e)); o.push(("mut", J::B(m == Mutability::Mut))); }
                RigidTy::Tuple(es) => { o.push(("k", s("tuple"))); let v = es.iter().map(|e| self.ty(*e)).collect(); o.push(("elems", J::A(v))); }
                RigidTy::Adt(def, args) => {
                    o.push(("k", s("adt")));
                    o.push(("name", s(def.name())));
                    o.push(("kind", s(match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" })));
                    let a = self.gargs(&args); o.push(("args", a));
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs = v.fields().iter().map(|f| { let t = f.ty_with_args(&args); J::A(vec![s(f.name.to_string()), self.ty(t)]) }).collect();
                        let d = if def.kind() == AdtKind::Enum { n(def.discriminant_for_variant(v.idx()).val) } else { n(0) };
                        vs.push(J::O(vec![("name", s(v.name().to_string())), ("discr", d), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
                RigidTy::FnDef(def, args) => {
                    o.push(("k", s("fndef"))); o.push(("name", s(def.name())));
                    if let Some(k) = self.model(&def.name(), &args) { o.push(("inst", n(k))); }
                    else if let Ok(i) = Instance::resolve(def, &args) { let k = self.inst(i); o.push(("inst", n(k))); }
                    let a = self.gargs(&args); o.push(("args", a));
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Closure(def, args) => {
                    o.push(("k", s("closure"))); o.push(("name", s(def.name())));
                    // upvar tuple type is the last generic argument
                    if let Some(GenericArgKind::Type(u)) = args.0.last() { let u = self.ty(*u); o.push(("upvars", u)); }
                    if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::FnMut) { let k = self.inst(i); o.push(("inst", n(k))); }
                }
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                RigidTy::Foreign(_) => o.push(("k", s("foreign"))),
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }
    fn gargs(&mut self, args: &GenericArgs) -> J {
        J::A(args.0.iter().map(|a| match a {
            GenericArgKind::Type(t) => self.ty(*t),
            GenericArgKind::Lifetime(_) => s("'_"),
            GenericArgKind::Const(c) => match c.eval_target_usize() { Ok(v) => J::O(vec![("const", n(v))]), Err(_) => s(format!("{:?}", c)) },
        }).collect())
    }
    fn alloc(&mut self, a: &Allocation, depth: usize) -> J {
        let bytes: Vec<J> = if a.bytes.len() <= 4096 { a.bytes.iter().map(|b| match b { Some(b) => n(*b), None => J::Null }).collect() } else { vec![] };
        let mut ps = vec![];
        for (off, prov) in &a.provenance.ptrs {
            let g = GlobalAlloc::from(prov.0);
            let j = match g {
                GlobalAlloc::Memory(m) => if depth < 6 { let m = self.alloc(&m, depth + 1); J::O(vec![("mem", m)]) } else { J::Null },
                GlobalAlloc::Function(i) => { let k = self.inst(i); J::O(vec![("fn", n(k))]) }
                GlobalAlloc::Static(d) => {
                    let nm = d.name();
                    let init = if depth < 6 { d.eval_initializer().ok() } else { None };
                    let m = match init { Some(m) => self.alloc(&m, depth + 1), None => J::Null };
                    J::O(vec![("static", s(nm)), ("mem", m)])
                }
                GlobalAlloc::VTable(t, _) => { let t = self.ty(t); J::O(vec![("vtable", t)]) }
                _ => J::Null,
            };
            ps.push(J::A(vec![n(*off), j]));
        }
        J::O(vec![("bytes", J::A(bytes)), ("len", n(a.bytes.len())), ("ptrs", J::A(ps)), ("mut", J::B(a.mutability == Mutability::Mut))])
    }
    fn konst(&mut self, c: &MirConst) -> J {
        let t = self.ty(c.ty());
        let k = match c.kind() {
            ConstantKind::Allocated(a) => self.alloc(a, 0),
            ConstantKind::ZeroSized => s("zst"),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(v) => J::O(vec![("usize", n(v))]), Err(_) => s(format!("?{:?}", tc)) },
            ConstantKind::Unevaluated(_) => match c.eval_target_usize() { Ok(v) => J::O(vec![("usize", n(v))]), Err(_) => s("?unevaluated") },
            ConstantKind::Param(_) => s("?param"),
        };
        J::O(vec![("ty", t), ("v", k)])
    }
    fn place(&mut self, p: &Place) -> J {
        if p.projection.is_empty() { return n(p.local); }
        let mut v = vec![n(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); J::A(vec![s("f"), n(*i), t]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("c"), n(*offset), n(*min_length), J::B(*from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), n(*from), n(*to), J::B(*from_end)]),
                ProjectionElem::Downcast(i) => J::A(vec![s("d"), n(i.to_index())]),
                ProjectionElem::OpaqueCast(_) => s("o"),
            });
        }
        J::A(v)
    }
    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.konst(&c.const_))]),
            #[allow(unreachable_patterns)]
            x => J::O(vec![("rt", s(format!("{:?}", x)))]),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::AddressOf(m, p) => J::A(vec![s("addr"), s(format!("{:?}", m)), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(def, v, args, _, active) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*def, args.clone()));
                        J::A(vec![s("adt"), self.ty(t), n(v.to_index()), match active { Some(a) => n(*a), None => J::Null }])
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*def, args.clone()));
                        J::A(vec![s("closure"), self.ty(t)])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), self.ty(*t)]),
                    x => J::A(vec![s("other"), s(format!("{:?}", x))]),
                };
                let v = ops.iter().map(|o| self.op(o)).collect();
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            Rvalue::BinaryOp(b, x, y) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(x), self.op(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => J::A(vec![s("cbin"), s(format!("{:?}", b)), self.op(x), self.op(y)]),
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(o), self.ty(*t)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("c", self.place(p))])]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Ref(_, b, p) => J::A(vec![s("ref"), s(match b { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shared", _ => "fake" }), self.place(p)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.op(o), c.eval_target_usize().map(n).unwrap_or(J::Null)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o)]),
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o)]),
            #[allow(unreachable_patterns)]
            x => J::A(vec![s("other"), s(format!("{:?}", x))]),
        }
    }
    fn span(&self, sp: &Span) -> J {
        let l = sp.get_lines();
        let f = sp.get_filename();
        J::A(vec![s(f), n(l.start_line)])
    }
    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value { if p.projection.is_empty() { names.push(J::A(vec![n(p.local), s(v.name.to_string())])); } }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                let j = match &x.kind {
                    StatementKind::Assign(p, r) => J::A(vec![s("="), self.place(p), self.rv(r), self.span(&x.source_info.span)]),
                    StatementKind::SetDiscriminant { place, variant_index } => J::A(vec![s("sd"), self.place(place), n(variant_index.to_index())]),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => J::A(vec![s("assume"), self.op(o)]),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => J::A(vec![s("copynonov"), self.op(&c.src), self.op(&c.dst), self.op(&c.count)]),
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(*l)]),
                    StatementKind::StorageLive(l) => J::A(vec![s("live"), n(*l)]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = &bb.terminator;
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = targets.branches().map(|(v, b)| J::A(vec![s(v.to_string()), n(b)])).collect();
                    J::A(vec![s("switch"), self.op(discr), J::A(br), n(targets.otherwise())])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![s("drop"), self.place(place), n(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let mut extra = vec![("func", f)];
                    if let Ok(ft) = func.ty(b.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, ga)) = ft.kind() {
                            extra.push(("name", s(def.name())));
                            if let Some(k) = self.model(&def.name(), &ga) { extra.push(("model", n(k))); }
                            else if let Ok(i) = Instance::resolve(def, &ga) { let k = self.inst(i); extra.push(("inst", n(k))); }
                            let g = self.gargs(&ga);
                            extra.push(("gargs", g));
                        }
                    }
                    let a = args.iter().map(|o| self.op(o)).collect();
                    extra.push(("args", J::A(a)));
                    extra.push(("dest", self.place(destination)));
                    extra.push(("target", match target { Some(t) => n(*t), None => J::Null }));
                    J::A(vec![s("call"), J::O(extra)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split(|c| c == '(' || c == '{' || c == ' ').next().unwrap_or("").to_string() + &(match msg { AssertMessage::Overflow(o, ..) => format!(":{:?}", o), _ => String::new() });
                    J::A(vec![s("assert"), self.op(cond), J::B(*expected), s(m), n(*target)])
                }
                x => J::A(vec![s("other"), s(format!("{:?}", x))]),
            };
            blocks.push(J::O(vec![("st", J::A(st)), ("t", tj), ("sp", self.span(&t.source_info.span))]));
        }
        J::O(vec![("argc", n(b.arg_locals().len())), ("spread", match b.spread_arg() { Some(x) => n(x), None => J::Null }), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks))])
    }
    // Calls to std's iterator consumers are replaced by the equivalent loops written in the harness.
    fn model(&mut self, name: &str, ga: &GenericArgs) -> Option<usize> {
        let tys: Vec<Ty> = ga.0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => Some(*t), _ => None }).collect();
        let adt = |t: &Ty| -> Option<(String, Vec<Ty>)> { match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((d.name().to_string(), a.0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => Some(*t), _ => None }).collect())), _ => None } };
        let coll = |it: Ty, b: Ty| -> Option<(&'static str, Vec<Ty>)> {
            let (n, a) = adt(&b)?;
            if n.ends_with("::Vec") { return Some(("collect_vec", vec![it])); }
            if n.ends_with("::Result") && adt(&a[0])?.0.ends_with("::Vec") { return Some(("collect_result", vec![it, adt(&a[0])?.1[0], a[1]])); }
            if n.ends_with("::Option") && adt(&a[0])?.0.ends_with("::Vec") { return Some(("collect_option", vec![it, adt(&a[0])?.1[0]])); }
            None
        };
        let m = match name {
            "std::iter::Iterator::collect" => coll(tys[0], tys[1])?,
            "std::iter::FromIterator::from_iter" => { let (nm, mut t) = coll(tys[2], tys[0])?; if nm == "collect_vec" { t = vec![tys[2]]; ("from_iter_vec", t) } else { return None } }
            "std::iter::Extend::extend" => { let (n, a) = adt(&tys[0])?; if n.ends_with("::Vec") && a[0] == tys[1] { ("extend_vec", vec![a[0], tys[2]]) } else { return None } }
            "std::iter::Iterator::fold" => ("fold", tys.clone()),
            "std::iter::Iterator::try_fold" => ("try_fold", tys.clone()),
            "std::iter::Iterator::for_each" => ("for_each", tys.clone()),
            "std::iter::Iterator::try_for_each" => ("try_for_each", tys.clone()),
            "std::iter::Iterator::all" => ("all", tys.clone()),
            "std::iter::Iterator::any" => ("any", tys.clone()),
            "std::iter::Iterator::find" => ("find", tys.clone()),
            "std::iter::Iterator::position" => ("position", tys.clone()),
            "std::iter::Iterator::count" => ("count", tys.clone()),
            "std::iter::Iterator::last" => ("last", tys.clone()),
            "std::iter::Iterator::nth" => ("nth", tys.clone()),
            "std::vec::Vec::<T, A>::resize_with" => ("resize_with", vec![tys[0], tys[2]]),
            "std::vec::Vec::<T, A>::resize" => ("resize", vec![tys[0]]),
            "std::default::Default::default" => {
                let (n, a) = adt(&tys[0])?;
                if matches!(a.first()?.kind(), TyKind::RigidTy(RigidTy::Str | RigidTy::Slice(_))) || adt(&a[0]).map(|x| x.0.ends_with("CStr")).unwrap_or(false) { return None }
                if n.ends_with("boxed::Box") { ("box_default", vec![a[0]]) } else if n.ends_with("rc::Rc") { ("rc_default", vec![a[0]]) } else if n.ends_with("sync::Arc") { ("arc_default", vec![a[0]]) } else { return None }
            }
            _ => return None,
        };
        let f = MODELS.with(|t| t.borrow().get(m.0).copied())?;
        let i = Instance::resolve(f, &GenericArgs(m.1.into_iter().map(GenericArgKind::Type).collect())).ok()?;
        Some(self.inst(i))
    }
    fn emit_inst(&mut self, i: Instance) -> J {
        let name = i.name();
        let def = i.def.name();
        let mut o = vec![("name", s(name.clone())), ("def", s(def)), ("crate", s(i.def.krate().name.to_string()))];
        let a = self.gargs(&i.args()); o.push(("args", a));
        o.push(("kind", s(format!("{:?}", i.kind).split(|c| c == '{' || c == '(' || c == ' ').next().unwrap().to_string())));
        if let Some(x) = i.intrinsic_name() { o.push(("intrinsic", s(x.to_string()))); }
        o.push(("span", self.span(&i.def.span())));
        let kr = i.def.krate().name.to_string();
        let stop = stopped(&name) && !kr.starts_with("compact_thrift") && !kr.starts_with("ct_");
        if !stop && i.has_body() && !matches!(i.kind, InstanceKind::Intrinsic) {
            if let Some(b) = i.body() {
                let bj = self.body(&b);
                o.push(("body", bj));
            }
        }
        J::O(o)
    }
}

thread_local! { static MODELS: std::cell::RefCell<HashMap<String, FnDef>> = std::cell::RefCell::new(HashMap::new()); }

fn protocol_roots<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>, tr: rustc_span::def_id::DefId, sty: Ty, ins: &[(String, Ty)], outs: &[(String, Ty)], d: &mut D, rl: &mut Vec<J>) {
    use rustc_public::rustc_internal;
    let lt = || GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased });
    for &m in tcx.associated_item_def_ids(tr) {
        let mn = tcx.item_name(m).to_string();
        if tcx.def_kind(m) == rustc_hir::def::DefKind::AssocConst {} 
        let f = match rustc_internal::stable(tcx.type_of(m).instantiate_identity().skip_norm_wip()).kind() { TyKind::RigidTy(RigidTy::FnDef(f, _)) => f, _ => continue };
        let set = if mn.starts_with("write") { outs } else { ins };
        for (b, t) in set {
            let args = GenericArgs(vec![GenericArgKind::Type(sty), lt(), GenericArgKind::Type(*t)]);
            if let Ok(i) = Instance::resolve(f, &args) {
                let k = d.inst(i);
                let st = d.ty(sty);
                rl.push(J::A(vec![s(format!("{}/{}/{}", sty, mn, b)), n(k), st, s(mn.clone()), s(b.clone())]));
            }
        }
    }
}

fn go(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    use rustc_public::rustc_internal;
    let out = std::env::var("CT_OUT").unwrap();
    let roots = std::env::var("CT_ROOTS").unwrap_or_else(|_| "all".into());
    let mut d = D { types: HashMap::new(), tlist: vec![], tq: VecDeque::new(), insts: HashMap::new(), iq: VecDeque::new(), ilist: vec![], allocs: HashMap::new() };
    let _ = &d.allocs;
    let mut rl = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) || it.requires_monomorphization() { continue; }
        let nm = it.name();
        let want = if roots == "all" { true } else { roots.strip_prefix("mod:").map(|m| nm.contains(&format!("{}::", m))).unwrap_or(false) };
        if !want { continue; }
        if let Ok(i) = Instance::try_from(it) { let k = d.inst(i); rl.push(J::A(vec![s(nm.to_string()), n(k)])); }
    }
    // marker types (inputs and outputs) and instances of generic impls named by the harness
    let (mut ins, mut outs, mut gen) = (vec![], vec![], vec![]);
    for it in rustc_public::all_local_items() {
        let nm = it.name().to_string();
        let (m, g) = (nm.contains("markers::"), nm.contains("generic::"));
        if nm.contains("models::") {
            if let TyKind::RigidTy(RigidTy::FnDef(f, _)) = it.ty().kind() { MODELS.with(|t| t.borrow_mut().insert(nm.rsplit("::").next().unwrap().to_string(), f)); }
        }
        if !(m || g) { continue; }
        let base = nm.rsplit("::").next().unwrap().to_string();
        if let TyKind::RigidTy(RigidTy::FnDef(f, a)) = it.ty().kind() {
            let sig = f.fn_sig().skip_binder();
            let _ = a;
            if let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = sig.inputs()[0].kind() {
                if g { gen.push(t) } else if base.starts_with("in_") { ins.push((base, t)) } else { outs.push((base, t)) }
            }
        }
    }
    // all impls of the protocol traits visible from here
    let mut impls = vec![];
    for tr in tcx.all_traits_including_private() {
        let nm = tcx.def_path_str(tr);
        if !(nm.ends_with("CompactThriftProtocol") || nm.ends_with("CompactThriftInput") || nm.ends_with("CompactThriftOutput")) { continue; }
        for imp in tcx.all_impls(tr) {
            let st = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip().self_ty();
            let gens = tcx.generics_of(imp);
            let ntypes = gens.own_params.iter().filter(|p| !matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime)).count();
            let items: Vec<J> = tcx.associated_item_def_ids(imp).iter().map(|m| s(tcx.item_name(*m).to_string())).collect();
            let sp = tcx.def_span(imp);
            let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
            // root the methods of this impl for every marker type
            if nm.ends_with("CompactThriftProtocol") && ntypes == 0 {
                let sty = rustc_internal::stable(st);
                protocol_roots(tcx, tr, sty, &ins, &outs, &mut d, &mut rl);
            }
            impls.push(J::O(vec![("trait", s(nm.clone())), ("self", s(st.to_string())), ("generic", n(ntypes)), ("items", J::A(items)),
                ("crate", s(tcx.crate_name(imp.krate).to_string())), ("file", s(format!("{}", loc.file.name.prefer_local_unconditionally()))), ("line", n(loc.line))]));
        }
    }
    // inherent items of the protocol types: associated constants and constructors
    let mut inh = vec![];
    for tr in tcx.all_traits_including_private() {
        if !tcx.def_path_str(tr).ends_with("CompactThriftProtocol") { continue; }
        for imp in tcx.all_impls(tr) {
            let st = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip().self_ty();
            let adt = match st.ty_adt_def() { Some(a) => a, None => continue };
            if !tcx.crate_name(adt.did().krate).as_str().starts_with("c") { continue; }
            if tcx.generics_of(adt.did()).own_params.len() != 0 { continue; }
            let sty = rustc_internal::stable(st);
            let mut consts = vec![];
            let mut news = vec![];
            for &ii in tcx.inherent_impls(adt.did()) {
                for &m in tcx.associated_item_def_ids(ii) {
                    let mn = tcx.item_name(m).to_string();
                    match tcx.def_kind(m) {
                        rustc_hir::def::DefKind::AssocConst { .. } => {
                            let v = tcx.const_eval_poly(m).ok().and_then(|v| v.try_to_scalar_int()).map(|x| x.to_bits(x.size()));
                            consts.push(J::A(vec![s(mn), match v { Some(b) => n(b), None => J::Null }]));
                        }
                        rustc_hir::def::DefKind::AssocFn => {
                            if mn != "new" { continue; }
                            let f = match rustc_internal::stable(tcx.type_of(m).instantiate_identity().skip_norm_wip()).kind() { TyKind::RigidTy(RigidTy::FnDef(f, _)) => f, _ => continue };
                            let np = tcx.generics_of(m).own_params.len();
                            let fts: Vec<Ty> = if let TyKind::RigidTy(RigidTy::Adt(ad, ga)) = sty.kind() { ad.variants()[0].fields().iter().map(|x| x.ty_with_args(&ga)).collect() } else { vec![] };
                            if fts.len() != np { news.push(J::A(vec![s(mn), J::Null])); continue; }
                            let args = GenericArgs(fts.into_iter().map(GenericArgKind::Type).collect());
                            match Instance::resolve(f, &args) { Ok(i) => { let k = d.inst(i); news.push(J::A(vec![s(mn), n(k)])); } Err(_) => news.push(J::A(vec![s(mn), J::Null])) }
                        }
                        _ => {}
                    }
                }
            }
            let t = d.ty(sty);
            inh.push(J::O(vec![("ty", t), ("self", s(st.to_string())), ("consts", J::A(consts)), ("new", J::A(news))]));
        }
    }
    for tr in tcx.all_traits_including_private() {
        if !tcx.def_path_str(tr).ends_with("CompactThriftProtocol") { continue; }
        for t in &gen { protocol_roots(tcx, tr, *t, &ins, &outs, &mut d, &mut rl); }
    }
    loop {
        if let Some((i, k)) = d.iq.pop_front() { let j = d.emit_inst(i); d.ilist[k] = Some(j); continue; }
        if let Some((t, k)) = d.tq.pop_front() { let j = d.emit_ty(t); d.tlist[k] = Some(j); continue; }
        break;
    }
    let ni = d.ilist.len();
    let nt = d.tlist.len();
    let j = J::O(vec![
        ("roots", J::A(rl)),
        ("impls", J::A(impls)),
        ("inherent", J::A(inh)),
        ("types", J::A(d.tlist.into_iter().map(|x| x.unwrap_or(J::Null)).collect())),
        ("insts", J::A(d.ilist.into_iter().map(|x| x.unwrap_or(J::Null)).collect())),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    std::fs::write(&out, o).unwrap();
    eprintln!("ct-driver: {} instances, {} types", ni, nt);
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let krate = std::env::var("CT_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate);
    assert!(is, "CT_CRATE does not name the crate being compiled");
    let r = rustc_public::run_with_tcx!(&args, go);
    match r { Ok(_) => {} Err(e) => { eprintln!("ct-driver: {:?}", e); std::process::exit(3) } }
}
