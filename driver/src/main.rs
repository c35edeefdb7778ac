//! Compiler driver: dumps the type-checked, monomorphised MIR of a workspace crate as JSON.
//!
//! Invoked by cargo as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, the rest are its
//! arguments. The dump of crate `foo` goes to $MIRDUMP_OUT/foo.<lib|bin>.json.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::process::ExitCode;

// ---------------------------------------------------------------- JSON

enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
use J::*;

fn s<T: Into<String>>(x: T) -> J {
    S(x.into())
}
fn u(x: usize) -> J {
    I(x as i128)
}
fn opt(x: Option<J>) -> J {
    x.unwrap_or(N)
}

impl J {
    fn put(&self, o: &mut String) {
        match self {
            N => o.push_str("null"),
            B(b) => o.push_str(if *b { "true" } else { "false" }),
            I(i) => {
                let _ = write!(o, "{i}");
            }
            S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.put(o);
                }
                o.push(']');
            }
            O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.put(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- dump

struct Dump<'t> {
    tcx: TyCtxt<'t>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    fn_out: BTreeMap<usize, J>,
    vtables: HashMap<(usize, usize), J>,
}

/// Functions whose bodies are never wanted: their meaning is modelled, or irrelevant.
fn stop(path: &str) -> bool {
    const PFX: &[&str] = &[
        "std::fmt", "core::fmt", "alloc::fmt", "std::io", "std::rt", "std::panicking", "core::panicking",
        "std::panic", "core::panic", "std::alloc", "alloc::alloc", "std::rc", "alloc::rc", "std::sync",
        "alloc::sync", "std::boxed", "alloc::boxed", "std::string", "alloc::string", "std::thread",
        "std::env", "std::fs", "std::process", "std::time", "std::net", "std::os", "std::sys",
        "std::collections", "alloc::collections", "std::hash", "core::hash", "alloc::raw_vec",
        "std::vec", "alloc::vec", "alloc::slice", "std::str", "core::str", "core::char", "std::char",
        "std::backtrace", "core::unicode", "std::ptr", "core::ptr", "std::ub_checks", "core::ub_checks",
        "core::intrinsics", "std::intrinsics",
    ];
    let p = path.trim_start_matches('<').trim_start_matches('&');
    // leads to the implementation that displays the argument
    if p.starts_with("core::fmt::rt::Argument") {
        return false;
    }
    // provided methods over an iterator, whatever it iterates
    if path.starts_with("std::iter::") || path.starts_with("<&std::vec::Vec<") || path.starts_with("<&mut std::vec::Vec<") {
        return false;
    }
    // text made up from characters
    if path.starts_with("<std::string::String as std::iter::FromIterator<") || path.starts_with("<std::string::String as std::iter::Extend<") {
        return false;
    }
    PFX.iter().any(|x| p.starts_with(x) && p[x.len()..].starts_with("::"))
}

impl<'t> Dump<'t> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(N);
        let mut o: Vec<(&'static str, J)> = vec![("id", u(id)), ("str", s(format!("{t}")))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(i) => {
                    o.push(("k", s("int")));
                    o.push(("bits", u(i.num_bytes() * 8)));
                    o.push(("signed", B(true)));
                }
                RigidTy::Uint(i) => {
                    o.push(("k", s("int")));
                    o.push(("bits", u(i.num_bytes() * 8)));
                    o.push(("signed", B(false)));
                }
                RigidTy::Float(_) => o.push(("k", s("float"))),
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Adt(def, args) => {
                    o.push(("k", s("adt")));
                    o.push(("name", s(def.name())));
                    o.push(("local", B(def.krate().is_local)));
                    o.push(("krate", s(def.krate().name)));
                    o.push(("adtkind", s(format!("{}", def.kind()))));
                    o.push(("is_box", B(def.is_box())));
                    o.push(("args", self.args(&args)));
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let fty = f.ty_with_args(&args);
                            fs.push(O(vec![("name", s(f.name.clone())), ("ty", u(self.ty(fty)))]));
                        }
                        let d = if def.kind().is_enum() {
                            def.discriminant_for_variant(v.idx()).val as i128
                        } else {
                            0
                        };
                        vs.push(O(vec![("name", s(v.name())), ("discr", I(d)), ("fields", A(fs))]));
                    }
                    o.push(("variants", A(vs)));
                    if def.kind().is_enum() {
                        if let Some(dt) = t.kind().discriminant_ty() {
                            let dt = self.ty(dt);
                            o.push(("discr_ty", u(dt)));
                        }
                    }
                }
                RigidTy::Array(e, n) => {
                    o.push(("k", s("array")));
                    o.push(("elem", u(self.ty(e))));
                    o.push(("len", opt(n.eval_target_usize().ok().map(|x| I(x as i128)))));
                }
                RigidTy::Slice(e) => {
                    o.push(("k", s("slice")));
                    o.push(("elem", u(self.ty(e))));
                }
                RigidTy::RawPtr(e, m) => {
                    o.push(("k", s("ptr")));
                    o.push(("to", u(self.ty(e))));
                    o.push(("mut", B(m == Mutability::Mut)));
                }
                RigidTy::Ref(_, e, m) => {
                    o.push(("k", s("ref")));
                    o.push(("to", u(self.ty(e))));
                    o.push(("mut", B(m == Mutability::Mut)));
                }
                RigidTy::FnDef(def, args) => {
                    o.push(("k", s("fndef")));
                    o.push(("name", s(def.name())));
                    o.push(("args", self.args(&args)));
                    if let Ok(i) = Instance::resolve_for_fn_ptr(def, &args) {
                        o.push(("inst", u(self.inst(i))));
                    }
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Closure(def, args) => {
                    o.push(("k", s("closure")));
                    o.push(("name", s(def.name())));
                    let ups = match args.0.last() {
                        Some(GenericArgKind::Type(tt)) => match tt.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                                A(ts.iter().map(|x| u(self.ty(*x))).collect())
                            }
                            _ => A(vec![]),
                        },
                        _ => A(vec![]),
                    };
                    o.push(("upvars", ups));
                    if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                        o.push(("inst_once", u(self.inst(i))));
                    }
                    let kind = args.0.iter().rev().nth(2).and_then(|a| match a {
                        GenericArgKind::Type(tt) => Some(format!("{tt}")),
                        _ => None,
                    });
                    let ck = match kind.as_deref() {
                        Some("i8") => ClosureKind::Fn,
                        Some("i16") => ClosureKind::FnMut,
                        _ => ClosureKind::FnOnce,
                    };
                    o.push(("ckind", s(format!("{ck:?}"))));
                    if let Ok(i) = Instance::resolve_closure(def, &args, ck) {
                        o.push(("inst", u(self.inst(i))));
                    }
                }
                RigidTy::Dynamic(..) => {
                    o.push(("k", s("dyn")));
                    if let Some(p) = t.kind().trait_principal() {
                        o.push(("name", s(p.skip_binder().def_id.name())));
                    }
                }
                RigidTy::Tuple(ts) => {
                    o.push(("k", s("tuple")));
                    let v = ts.iter().map(|x| u(self.ty(*x))).collect();
                    o.push(("elems", A(v)));
                }
                RigidTy::Pat(inner, _) => {
                    o.push(("k", s("pat")));
                    o.push(("to", u(self.ty(inner))));
                }
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[id] = O(o);
        id
    }

    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(u(self.ty(*t))),
                GenericArgKind::Const(c) => {
                    v.push(O(vec![("const", opt(c.eval_target_usize().ok().map(|x| I(x as i128))))]))
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        A(v)
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(id) = self.insts.get(&i) {
            return *id;
        }
        let id = self.insts.len();
        self.insts.insert(i, id);
        self.queue.push_back((id, i));
        id
    }

    fn span(&self, sp: Span) -> J {
        // code from a macro is reported where the outermost macro is invoked
        let isp = rustc_public::rustc_internal::internal(self.tcx, sp).source_callsite();
        let sp = rustc_public::rustc_internal::stable(isp);
        let f = sp.get_filename();
        let l = sp.get_lines();
        s(format!("{}:{}:{}", f, l.start_line, l.start_col))
    }

    /// reachable by name from other crates
    fn exported(&self, did: rustc_span::def_id::DefId) -> bool {
        did.as_local().is_some_and(|l| self.tcx.effective_visibilities(()).is_reachable(l))
    }

    fn place(&mut self, p: &Place) -> J {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => A(vec![s("f"), u(*i), u(self.ty(*t))]),
                ProjectionElem::Index(l) => A(vec![s("i"), u(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => A(vec![
                    s("c"),
                    I(*offset as i128),
                    I(*min_length as i128),
                    B(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    A(vec![s("sub"), I(*from as i128), I(*to as i128), B(*from_end)])
                }
                ProjectionElem::Downcast(v) => A(vec![s("v"), u(v.to_index())]),
                ProjectionElem::OpaqueCast(t) => A(vec![s("oc"), u(self.ty(*t))]),
            });
        }
        A(vec![u(p.local), A(pr)])
    }

    fn bytes(al: &Allocation, off: usize, n: usize) -> Option<u128> {
        al.read_partial_uint(off..off + n).ok()
    }

    fn sext(v: u128, n: usize) -> i128 {
        if n >= 16 {
            return v as i128;
        }
        let sh = 128 - n * 8;
        ((v << sh) as i128) >> sh
    }

    /// Decodes a constant into a value tree. None when it is not understood.
    fn cval(&mut self, al: &Allocation, off: usize, t: Ty, depth: usize) -> Option<J> {
        if depth > 12 {
            return None;
        }
        let tid = self.ty(t);
        let TyKind::RigidTy(r) = t.kind() else { return None };
        match r {
            RigidTy::Bool => Some(O(vec![("bool", B(Self::bytes(al, off, 1)? != 0))])),
            RigidTy::Char => Some(O(vec![("int", I(Self::bytes(al, off, 4)? as i128)), ("ty", u(tid))])),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                Some(O(vec![("int", I(Self::sext(Self::bytes(al, off, n)?, n))), ("ty", u(tid))]))
            }
            RigidTy::Uint(i) => {
                let n = i.num_bytes();
                let v = Self::bytes(al, off, n)?;
                if v > i128::MAX as u128 {
                    return Some(O(vec![("bigint", s(format!("{v}"))), ("ty", u(tid))]));
                }
                Some(O(vec![("int", I(v as i128)), ("ty", u(tid))]))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off)?.1;
                let delta = Self::bytes(al, off, 8)? as usize;
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = Self::bytes(al, off + 8, 8)? as usize;
                            let raw: Option<Vec<u8>> =
                                m.bytes.get(delta..delta + len)?.iter().copied().collect();
                            let st = String::from_utf8(raw?).ok()?;
                            Some(O(vec![("str", s(st)), ("ty", u(tid))]))
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let len = Self::bytes(al, off + 8, 8)? as usize;
                            let sz = el.layout().ok()?.shape().size.bytes();
                            let mut v = vec![];
                            for k in 0..len {
                                v.push(self.cval(&m, delta + k * sz, el, depth + 1)?);
                            }
                            Some(O(vec![("ref", O(vec![("array", A(v)), ("ty", u(self.ty(e)))])), ("ty", u(tid))]))
                        }
                        _ => {
                            let v = self.cval(&m, delta, e, depth + 1)?;
                            Some(O(vec![("ref", v), ("ty", u(tid))]))
                        }
                    },
                    GlobalAlloc::Static(d) => Some(O(vec![("static", s(d.name())), ("ty", u(tid))])),
                    GlobalAlloc::Function(i) => {
                        let id = self.inst(i);
                        Some(O(vec![("fn", u(id)), ("ty", u(tid))]))
                    }
                    _ => None,
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off)?.1;
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Function(i) => {
                        let id = self.inst(i);
                        Some(O(vec![("fn", u(id)), ("ty", u(tid))]))
                    }
                    _ => None,
                }
            }
            RigidTy::Array(e, n) => {
                let len = n.eval_target_usize().ok()? as usize;
                let sz = e.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for k in 0..len {
                    v.push(self.cval(al, off + k * sz, e, depth + 1)?);
                }
                Some(O(vec![("array", A(v)), ("ty", u(tid))]))
            }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let offs = match &sh.fields {
                    FieldsShape::Arbitrary { offsets } => offsets.clone(),
                    _ => vec![],
                };
                let mut v = vec![];
                for (k, e) in ts.iter().enumerate() {
                    let o = offs.get(k).map(|x| x.bytes()).unwrap_or(0);
                    v.push(self.cval(al, off + o, *e, depth + 1)?);
                }
                Some(O(vec![("agg", A(v)), ("variant", I(0)), ("ty", u(tid))]))
            }
            RigidTy::Adt(def, args) if def.kind() != AdtKind::Union => {
                let sh = t.layout().ok()?.shape();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return None,
                    VariantsShape::Single { index } => {
                        let offs = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        let isptr = al.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let tv = Self::bytes(al, off + toff, tsz)?;
                                let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                def.variants().iter().position(|v| {
                                    def.discriminant_for_variant(v.idx()).val & m == tv
                                })?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if isptr {
                                    untagged_variant.to_index()
                                } else {
                                    let tv = Self::bytes(al, off + toff, tsz)?;
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & m;
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    if rel <= hi - lo {
                                        (lo + rel) as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let vs = def.variants();
                let mut v = vec![];
                for (k, f) in vs[vi].fields().iter().enumerate() {
                    let o = offs.get(k).copied().unwrap_or(0);
                    v.push(self.cval(al, off + o, f.ty_with_args(&args), depth + 1)?);
                }
                Some(O(vec![("agg", A(v)), ("variant", u(vi)), ("ty", u(tid))]))
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => Some(O(vec![("zst", B(true)), ("ty", u(tid))])),
            _ => None,
        }
    }

    fn konst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let tid = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => O(vec![("zst", B(true)), ("ty", u(tid))]),
            ConstantKind::Allocated(al) => match self.cval(&al.clone(), 0, t, 0) {
                Some(j) => j,
                None => O(vec![("opaque", s(format!("{t}"))), ("ty", u(tid))]),
            },
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => O(vec![("int", I(v as i128)), ("ty", u(tid))]),
                Err(_) => O(vec![("opaque", s(format!("{t}"))), ("ty", u(tid))]),
            },
            _ => O(vec![("opaque", s(format!("{t}"))), ("ty", u(tid))]),
        }
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => A(vec![s("const"), self.konst(&c.const_)]),
            Operand::RuntimeChecks(r) => A(vec![s("rtcheck"), s(format!("{r:?}"))]),
        }
    }

    fn unsize(&mut self, from: Ty, to: Ty) {
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
                TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|g| match g {
                    GenericArgKind::Type(t) => Some(*t),
                    _ => None,
                }),
                _ => None,
            }
        }
        let (Some(a), Some(b)) = (pointee(from), pointee(to)) else { return };
        self.vtable(a, b);
    }

    fn vtable(&mut self, a: Ty, b: Ty) {
        if let TyKind::RigidTy(RigidTy::Dynamic(..)) = a.kind() {
            return;
        }
        let TyKind::RigidTy(RigidTy::Dynamic(..)) = b.kind() else { return };
        let key = (self.ty(a), self.ty(b));
        if self.vtables.contains_key(&key) {
            return;
        }
        let Some(p) = b.kind().trait_principal() else { return };
        let tr = p.skip_binder().with_self_ty(a);
        let mut v = vec![];
        for (idx, e) in tr.vtable_entries().into_iter().enumerate() {
            if let VtblEntry::Method(i) = e {
                let id = self.inst(i);
                v.push(A(vec![u(idx), u(id), s(i.def.name())]));
            }
        }
        self.vtables.insert(key, A(v));
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::AddressOf(_, p) => A(vec![s("addr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let (kind, tid, vi): (&str, J, usize) = match k {
                    AggregateKind::Array(t) => ("array", u(self.ty(*t)), 0),
                    AggregateKind::Tuple => ("tuple", N, 0),
                    AggregateKind::Adt(d, vi, args, _, act) => {
                        let t = self.ty(d.ty_with_args(args));
                        (if act.is_some() { "union" } else { "adt" }, u(t), vi.to_index())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        ("closure", u(self.ty(t)), 0)
                    }
                    AggregateKind::RawPtr(t, _) => ("rawptr", u(self.ty(*t)), 0),
                    _ => ("other", N, 0),
                };
                A(vec![s("agg"), s(kind), tid, u(vi), A(v)])
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).ok().map(|t| u(self.ty(t)));
                A(vec![s("bin"), s(format!("{op:?}")), self.operand(a), self.operand(b), opt(t)])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).ok().map(|t| u(self.ty(t)));
                A(vec![s("cbin"), s(format!("{op:?}")), self.operand(a), self.operand(b), opt(t)])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).ok();
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k {
                    if let Some(f) = from {
                        self.unsize(f, *t);
                    }
                }
                let f = from.map(|f| u(self.ty(f)));
                A(vec![s("cast"), s(format!("{k:?}")), self.operand(o), opt(f), u(self.ty(*t))])
            }
            Rvalue::CopyForDeref(p) => A(vec![s("use"), A(vec![s("copy"), self.place(p)])]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).ok().map(|t| u(self.ty(t)));
                A(vec![s("discr"), self.place(p), opt(t)])
            }
            Rvalue::Len(p) => A(vec![s("len"), self.place(p)]),
            Rvalue::Ref(_, bk, p) => {
                A(vec![s("ref"), self.place(p), B(matches!(bk, BorrowKind::Mut { .. }))])
            }
            Rvalue::Repeat(o, n) => A(vec![
                s("repeat"),
                self.operand(o),
                opt(n.eval_target_usize().ok().map(|x| I(x as i128))),
            ]),
            Rvalue::ThreadLocalRef(i) => A(vec![s("tls"), s(i.name())]),
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).ok().map(|t| u(self.ty(t)));
                A(vec![s("un"), s(format!("{op:?}")), self.operand(a), opt(t)])
            }
            Rvalue::Use(o, _) => A(vec![s("use"), self.operand(o)]),
            Rvalue::Reborrow(t, _, p) => A(vec![s("reborrow"), self.place(p), u(self.ty(*t))]),
        }
    }

    fn unwind(ua: &UnwindAction) -> J {
        match ua {
            UnwindAction::Cleanup(b) => u(*b),
            x => s(format!("{x:?}")),
        }
    }

    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> J {
        let sp = self.span(t.source_info.span);
        let mut o: Vec<(&'static str, J)> = vec![("sp", sp)];
        match &t.kind {
            TerminatorKind::Goto { target } => {
                o.push(("t", s("goto")));
                o.push(("to", u(*target)));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("t", s("switch")));
                let ty = discr.ty(locals).ok().map(|t| u(self.ty(t)));
                o.push(("op", self.operand(discr)));
                o.push(("ty", opt(ty)));
                o.push((
                    "br",
                    A(targets.branches().map(|(v, b)| A(vec![s(format!("{v}")), u(b)])).collect()),
                ));
                o.push(("else", u(targets.otherwise())));
            }
            TerminatorKind::Resume => o.push(("t", s("resume"))),
            TerminatorKind::Abort => o.push(("t", s("abort"))),
            TerminatorKind::Return => o.push(("t", s("return"))),
            TerminatorKind::Unreachable => o.push(("t", s("unreachable"))),
            TerminatorKind::Drop { place, target, unwind } => {
                o.push(("t", s("drop")));
                let ty = place.ty(locals).ok().map(|t| u(self.ty(t)));
                o.push(("place", self.place(place)));
                o.push(("ty", opt(ty)));
                o.push(("to", u(*target)));
                o.push(("uw", Self::unwind(unwind)));
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                o.push(("t", s("call")));
                let fty = func.ty(locals).ok();
                o.push(("f", self.operand(func)));
                if let Some(TyKind::RigidTy(RigidTy::FnDef(d, ga))) = fty.map(|t| t.kind()) {
                    o.push(("def", s(d.name())));
                    o.push(("dkrate", s(d.krate().name)));
                    o.push(("gargs", self.args(&ga)));
                    if let Ok(i) = Instance::resolve(d, &ga) {
                        let id = self.inst(i);
                        o.push(("inst", u(id)));
                        if let InstanceKind::Virtual { idx } = i.kind {
                            o.push(("virt", u(idx)));
                        }
                    }
                }
                let av = args.iter().map(|a| self.operand(a)).collect();
                o.push(("args", A(av)));
                let at = args
                    .iter()
                    .map(|a| opt(a.ty(locals).ok().map(|t| u(self.ty(t)))))
                    .collect();
                o.push(("atys", A(at)));
                o.push(("dst", self.place(destination)));
                let dt = destination.ty(locals).ok().map(|t| u(self.ty(t)));
                o.push(("dty", opt(dt)));
                o.push(("to", opt(target.map(u))));
                o.push(("uw", Self::unwind(unwind)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                o.push(("t", s("assert")));
                o.push(("c", self.operand(cond)));
                o.push(("exp", B(*expected)));
                let (k, op, ops): (&str, String, Vec<&Operand>) = match msg {
                    AssertMessage::BoundsCheck { len, index } => ("bounds", "".into(), vec![len, index]),
                    AssertMessage::Overflow(b, x, y) => ("overflow", format!("{b:?}"), vec![x, y]),
                    AssertMessage::OverflowNeg(x) => ("overflowneg", "Neg".into(), vec![x]),
                    AssertMessage::DivisionByZero(x) => ("divzero", "Div".into(), vec![x]),
                    AssertMessage::RemainderByZero(x) => ("remzero", "Rem".into(), vec![x]),
                    _ => ("other", "".into(), vec![]),
                };
                o.push(("msg", s(k)));
                o.push(("bop", s(op)));
                let av = ops.iter().map(|a| self.operand(a)).collect();
                o.push(("mops", A(av)));
                o.push(("to", u(*target)));
                o.push(("uw", Self::unwind(unwind)));
            }
            TerminatorKind::InlineAsm { .. } => o.push(("t", s("asm"))),
        }
        O(o)
    }

    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt = locals.iter().map(|l| u(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p);
                names.push(A(vec![s(v.name.clone()), pj]));
            }
        }
        let mut bl = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let pj = self.place(p);
                        let rj = self.rvalue(r, &locals);
                        let dt = p.ty(&locals).ok().map(|t| u(self.ty(t)));
                        st.push(A(vec![s("="), pj, rj, sp, opt(dt)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(A(vec![s("setdiscr"), pj, u(variant_index.to_index()), sp]));
                    }
                    StatementKind::StorageDead(l) => st.push(A(vec![s("dead"), u(*l)])),
                    StatementKind::StorageLive(l) => st.push(A(vec![s("live"), u(*l)])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let oj = self.operand(o);
                        st.push(A(vec![s("assume"), oj]));
                    }
                    StatementKind::Intrinsic(_) => st.push(A(vec![s("copynonoverlapping"), sp])),
                    _ => {}
                }
            }
            let t = self.term(&bb.terminator, &locals);
            bl.push(O(vec![("s", A(st)), ("t", t)]));
        }
        O(vec![
            ("locals", A(lt)),
            ("argc", u(b.arg_locals().len())),
            ("spread", opt(b.spread_arg().map(u))),
            ("names", A(names)),
            ("blocks", A(bl)),
        ])
    }

    fn emit(&mut self, id: usize, i: Instance) {
        let dn = i.def.name();
        let kr = i.def.krate();
        let local = kr.is_local;
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", u(id)),
            ("name", s(i.name())),
            ("def", s(dn.clone())),
            ("krate", s(kr.name.clone())),
            ("local", B(local)),
            ("kind", s(format!("{:?}", i.kind).split(' ').next().unwrap_or("").to_string())),
            ("foreign", B(i.is_foreign_item())),
        ];
        if let Some(n) = i.intrinsic_name() {
            o.push(("intrinsic", s(n)));
        }
        if let InstanceKind::Virtual { idx } = i.kind {
            o.push(("virt", u(idx)));
        }
        if i.is_empty_shim() {
            o.push(("emptyshim", B(true)));
        }
        let own = local || kr.name == "clarith";
        if own {
            o.push(("sp", self.span(i.def.span())));
        }
        let virt = matches!(i.kind, InstanceKind::Virtual { .. });
        // drop glue is modelled structurally
        let dropglue = i.name().contains("drop_in_place");
        if !virt && !dropglue && (own || !(stop(&dn) || (!dn.starts_with("std::iter::Iterator::") && stop(&i.name())))) && (i.has_body() || i.kind == InstanceKind::Shim) {
            if let Some(b) = i.body() {
                let bj = self.body(&b);
                o.push(("body", bj));
            }
        }
        self.fn_out.insert(id, O(o));
    }

    fn run(&mut self) -> J {
        let kr = rustc_public::local_crate();
        let mut items = vec![];
        for it in rustc_public::all_local_items() {
            let kind = it.kind();
            let mut o: Vec<(&'static str, J)> = vec![
                ("name", s(it.name())),
                ("kind", s(format!("{kind:?}"))),
                ("sp", self.span(it.span())),
            ];
            let did = rustc_public::rustc_internal::internal(self.tcx, it.def_id());
            o.push(("exported", B(self.exported(did))));
            let defk = self.tcx.def_kind(did);
            o.push(("defkind", s(format!("{defk:?}"))));
            if matches!(kind, ItemKind::Fn) {
                match Instance::try_from(it) {
                    Ok(i) => {
                        let id = self.inst(i);
                        o.push(("inst", u(id)));
                    }
                    Err(_) => {
                        // a generic function is analysed where it is instantiated
                        o.push(("generic", B(true)));
                        if matches!(defk, rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
                            let sig = self.tcx.fn_sig(did).instantiate_identity().skip_binder();
                            o.push(("ins", A(sig.inputs().iter().map(|t| s(format!("{t:?}"))).collect())));
                            o.push(("out", s(format!("{:?}", sig.output()))));
                            let bounds = self.tcx.param_env(did).caller_bounds();
                            o.push(("bounds", A(bounds.map(|c| s(format!("{c:?}"))).collect())));
                        }
                    }
                }
            }
            items.push(O(o));
        }
        // trait impls of local types: local traits for vtables, Drop for structural drops
        let mut impls = vec![];
        for im in kr.trait_impls() {
            let ti = im.trait_impl();
            let tr = ti.value;
            let st = tr.self_ty();
            let tid = self.ty(st);
            impls.push(O(vec![
                ("trait", s(tr.def_id.name())),
                ("tlocal", B(tr.def_id.krate().is_local)),
                ("self", u(tid)),
                ("sp", self.span(im.span())),
            ]));
        }
        let mut statics = vec![];
        for st in kr.statics() {
            let did = rustc_public::rustc_internal::internal(self.tcx, st.def_id());
            statics.push(O(vec![
                ("name", s(st.name())),
                ("mut", B(self.tcx.is_mutable_static(did))),
                ("freeze", B({
                    let t = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    t.is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
                })),
                ("tls", B(self.tcx.is_thread_local_static(did))),
                ("sp", self.span(st.span())),
            ]));
        }
        let mut adts = vec![];
        for a in kr.adts() {
            let did = rustc_public::rustc_internal::internal(self.tcx, a.def_id());
            let def = self.tcx.adt_def(did);
            let mut fields = vec![];
            for v in def.variants() {
                for f in &v.fields {
                    // fields of enum variants are as visible as the enum
                    let open = def.is_enum() || f.vis.is_public();
                    fields.push(A(vec![s(v.name.as_str()), s(f.name.as_str()), B(open)]));
                }
            }
            adts.push(O(vec![
                ("name", s(a.name())),
                ("sp", self.span(a.span())),
                ("exported", B(self.exported(did))),
                ("fields", A(fields)),
            ]));
        }
        // traits of this crate, and whether another crate can name them
        let mut traits = vec![];
        for t in kr.trait_decls() {
            let did = rustc_public::rustc_internal::internal(self.tcx, t.def_id());
            let named = did
                .as_local()
                .is_some_and(|l| self.tcx.effective_visibilities(()).is_exported(l));
            traits.push(A(vec![s(t.name()), B(named)]));
        }
        let foreign: Vec<J> = kr
            .foreign_modules()
            .iter()
            .map(|m| s(format!("{}", m.name())))
            .collect();
        loop {
            while let Some((id, i)) = self.queue.pop_front() {
                self.emit(id, i);
            }
            // vtables for every local (dyn type, implementing type) pair
            let dyns: Vec<Ty> = self
                .tys
                .keys()
                .copied()
                .filter(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))))
                .collect();
            for d in dyns {
                let Some(p) = d.kind().trait_principal() else { continue };
                let tid = p.skip_binder().def_id;
                for im in kr.trait_impls() {
                    let tr = im.trait_impl().value;
                    if tr.def_id == tid && im.generics_of().params.is_empty() {
                        self.vtable(tr.self_ty(), d);
                    }
                }
            }
            if self.queue.is_empty() {
                break;
            }
        }
        let vt = self
            .vtables
            .drain()
            .map(|((a, b), v)| A(vec![u(a), u(b), v]))
            .collect();
        let fns = std::mem::take(&mut self.fn_out).into_values().collect();
        let tys = std::mem::take(&mut self.ty_out);
        O(vec![
            ("krate", s(kr.name)),
            ("items", A(items)),
            ("impls", A(impls)),
            ("statics", A(statics)),
            ("adts", A(adts)),
            ("foreign", A(foreign)),
            ("traits", A(traits)),
            ("vtables", A(vt)),
            ("fns", A(fns)),
            ("types", A(tys)),
        ])
    }
}

fn main() -> ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes the path of the real rustc as first argument
    args.remove(1);
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let kind = if args.iter().any(|a| a == "bin") { "bin" } else { "lib" };
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if name.is_empty() || name == "___" || out.is_empty() || name.starts_with("build_script") {
        rustc_driver::compiler_entrypoint(&args, &mut NoCb);
        return ExitCode::SUCCESS;
    }
    let path = format!("{out}/{name}.{kind}.json");
    let r = run_with_tcx!(&args, |tcx| {
        let mut d = Dump {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            insts: HashMap::new(),
            queue: VecDeque::new(),
            fn_out: BTreeMap::new(),
            vtables: HashMap::new(),
        };
        let j = d.run();
        let mut o = String::new();
        j.put(&mut o);
        std::fs::write(&path, o).expect("write dump");
        ControlFlow::<(), ()>::Continue(())
    });
    match r {
        Ok(()) => ExitCode::SUCCESS,
        Err(_) => ExitCode::FAILURE,
    }
}

struct NoCb;
impl rustc_driver::Callbacks for NoCb {}
