//! MIR extraction driver.  Runs the real compiler front end on /repo's library
//! and writes the resolved, monomorphic program (MIR of every function
//! reachable from the public API, callees resolved, constants evaluated,
//! layouts computed) as JSON for the analyser.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T, F: FnMut(&T) -> String>(v: &[T], mut f: F) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

/// The plain equivalent of a library function, from driver/shims.rs.
fn shim(tcx: TyCtxt<'_>, name: &str) -> Option<rustc_span::def_id::DefId> {
    let k = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "verif_shims")?;
    tcx.module_children(k.as_def_id()).iter().find(|c| c.ident.name.as_str() == name).and_then(|c| c.res.opt_def_id())
}

/// The library's slice and string iterators override some provided methods
/// with versions over their private fields, and some slice functions work on
/// machine words.  The provided method itself, or a plain equivalent from the
/// shims, means the same in terms of `next`; that body is dumped in their place.
fn plain(i: Instance) -> Instance {
    const KEEP: [&str; 7] =
        ["next", "next_back", "nth", "len", "size_hint", "__iterator_get_unchecked", "is_empty"];
    const SHIM: [&str; 6] = ["all", "any", "find", "find_map", "for_each", "position"];
    const SLICE: [&str; 5] = ["contains", "reverse", "starts_with", "ends_with", "is_ascii"];
    rustc_middle::ty::tls::with(|tcx| {
        let n: rustc_middle::ty::Instance<'_> = rustc_public::rustc_internal::internal(tcx, i);
        let did = n.def_id();
        if tcx.crate_name(did.krate).as_str() != "core" || !matches!(n.def, rustc_middle::ty::InstanceKind::Item(_)) {
            return i;
        }
        let make = |d, args| rustc_public::rustc_internal::stable(rustc_middle::ty::Instance::new_raw(d, args));
        if tcx.def_path_str(did).starts_with("core::slice::ascii::is_ascii") && n.args.is_empty() {
            return shim(tcx, "is_ascii").map_or(i, |d| make(d, n.args));
        }
        let Some(imp) = tcx.impl_of_assoc(did) else { return i };
        let name = tcx.item_name(did);
        let name = name.as_str();
        if !tcx.impl_is_of_trait(imp) {
            let slice = matches!(tcx.type_of(imp).skip_binder().kind(), rustc_middle::ty::TyKind::Slice(_));
            if slice && SLICE.contains(&name) {
                if let Some(d) = shim(tcx, name) {
                    if tcx.generics_of(d).count() == n.args.len() {
                        return make(d, n.args);
                    }
                }
            }
            return i;
        }
        let Some(item) = tcx.trait_item_of(did) else { return i };
        if item == did || !tcx.defaultness(item).has_value() {
            return i;
        }
        let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
        let tp = tcx.def_path_str(tr.def_id);
        let iter = ["Iterator", "DoubleEndedIterator", "ExactSizeIterator"].iter().any(|t| tp.ends_with(t));
        let owner = match tr.self_ty().kind() {
            rustc_middle::ty::TyKind::Adt(a, _) => tcx.def_path_str(a.did()),
            _ => return i,
        };
        let raw = owner.contains("slice::") || owner.contains("str::");
        let nth_ok = name != "nth" || owner.ends_with("slice::Iter") || owner.ends_with("slice::IterMut");
        if !iter || !raw || (KEEP.contains(&name) && nth_ok) {
            return i;
        }
        // Self and the method's own parameters, in terms of the trait
        let args = n.args.rebase_onto(tcx, imp, {
            let a = tcx.impl_trait_ref(imp).instantiate(tcx, n.args).skip_norm_wip().args;
            tcx.erase_and_anonymize_regions(a)
        });
        if SHIM.contains(&name) {
            return match shim(tcx, name) {
                Some(d) => make(d, args),
                None => i,
            };
        }
        make(item, args)
    })
}

#[derive(Default)]
struct Cx {
    inst_ids: HashMap<Instance, usize>,
    insts: Vec<Instance>,
    queue: VecDeque<usize>,
    types: BTreeMap<usize, String>,
    ty_seen: BTreeSet<usize>,
    allocs: BTreeMap<usize, String>,
    blobs: Vec<String>,
    blob_ids: HashMap<Vec<u8>, usize>,
    stop: Vec<String>,
    skipped: BTreeSet<String>,
}

impl Cx {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&k) = self.inst_ids.get(&i) {
            return k;
        }
        let k = self.insts.len();
        self.inst_ids.insert(i, k);
        self.insts.push(i);
        self.queue.push_back(k);
        k
    }

    fn ty(&mut self, t: Ty) -> String {
        let id = t.to_index();
        if self.ty_seen.insert(id) {
            let s = self.ty_body(t);
            self.types.insert(id, s);
        }
        id.to_string()
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .map(|g| match g {
                GenericArgKind::Lifetime(_) => "\"'\"".to_string(),
                GenericArgKind::Type(t) => self.ty(*t),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(n) => format!("[{}]", n),
                    Err(_) => "\"const\"".to_string(),
                },
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn layout(&mut self, t: Ty) -> String {
        let l = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return "null".into(),
        };
        let f = match &l.fields {
            FieldsShape::Primitive => "\"prim\"".into(),
            FieldsShape::Union(_) => "\"union\"".into(),
            FieldsShape::Array { stride, count } => {
                format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count)
            }
            FieldsShape::Arbitrary { offsets } => list(offsets, |o| o.bytes().to_string()),
        };
        let v = match &l.variants {
            VariantsShape::Empty => "null".to_string(),
            VariantsShape::Single { index } => format!("{{\"single\":{}}}", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let prim = match tag {
                    Scalar::Initialized { value, .. } => value,
                    Scalar::Union { value } => value,
                };
                let tag_size = match prim {
                    Primitive::Int { length, .. } => length.bits() / 8,
                    _ => 8,
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "{{\"untagged\":{},\"start\":{},\"end\":{},\"niche_start\":\"{}\"}}",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                format!(
                    "{{\"tag_field\":{},\"tag_size\":{},\"tag_off\":{},\"enc\":{},\"variants\":{}}}",
                    tag_field,
                    tag_size,
                    match &l.fields {
                        FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                        _ => 0,
                    },
                    enc,
                    list(variants, |v| list(&v.offsets, |o| o.bytes().to_string()))
                )
            }
        };
        format!("{{\"size\":{},\"fields\":{},\"variants\":{}}}", l.size.bytes(), f, v)
    }

    fn ty_body(&mut self, t: Ty) -> String {
        let r = match t.kind() {
            TyKind::RigidTy(r) => r,
            o => return format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", o))),
        };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":true}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":false}}", i.num_bytes() * 8),
            RigidTy::Adt(def, args) => {
                let kind = format!("{:?}", def.kind());
                let is_union = kind.contains("Union");
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter().enumerate() {
                    let discr = if kind.contains("Enum") {
                        def.discriminant_for_variant(VariantIdx::to_val(vi)).val.to_string()
                    } else {
                        "0".into()
                    };
                    let fs: Vec<String> = v
                        .fields()
                        .iter()
                        .map(|f| format!("[{},{}]", esc(&f.name), self.ty(f.ty_with_args(&args))))
                        .collect();
                    vs.push(format!(
                        "{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}",
                        esc(&v.name()),
                        discr,
                        fs.join(",")
                    ));
                }
                let a = self.args(&args);
                let lay = if is_union { "null".into() } else { self.layout(t) };
                format!(
                    "{{\"k\":\"adt\",\"name\":{},\"kind\":{},\"args\":{},\"variants\":[{}],\"layout\":{}}}",
                    esc(&def.name()),
                    esc(&kind),
                    a,
                    vs.join(","),
                    lay
                )
            }
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                let l = self.layout(e);
                format!("{{\"k\":\"array\",\"elem\":{},\"len\":{},\"elayout\":{}}}", self.ty(e), n, l)
            }
            RigidTy::Slice(e) => {
                let l = self.layout(e);
                format!("{{\"k\":\"slice\",\"elem\":{},\"elayout\":{}}}", self.ty(e), l)
            }
            RigidTy::RawPtr(p, _) => format!("{{\"k\":\"ptr\",\"to\":{}}}", self.ty(p)),
            RigidTy::Ref(_, p, m) => {
                format!("{{\"k\":\"ref\",\"to\":{},\"mut\":{}}}", self.ty(p), m == Mutability::Mut)
            }
            RigidTy::FnDef(def, args) => {
                let a = self.args(&args);
                let inst = match Instance::resolve(def, &args) {
                    Ok(i) => self.inst(plain(i)).to_string(),
                    Err(_) => "null".into(),
                };
                format!("{{\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{}}}", esc(&def.name()), a, inst)
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::Closure(def, args) => {
                let inst = match Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                    Ok(i) => self.inst(i).to_string(),
                    Err(_) => "null".into(),
                };
                // upvar tuple is the last generic argument
                let up = match args.0.last() {
                    Some(GenericArgKind::Type(t)) => self.ty(*t),
                    _ => "null".into(),
                };
                let lay = self.layout(t);
                format!(
                    "{{\"k\":\"closure\",\"name\":{},\"inst\":{},\"upvars\":{},\"layout\":{}}}",
                    esc(&def.name()),
                    inst,
                    up,
                    lay
                )
            }
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t)).collect();
                let lay = self.layout(t);
                format!("{{\"k\":\"tuple\",\"elems\":[{}],\"layout\":{}}}", v.join(","), lay)
            }
            o => format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", o))),
        }
    }

    fn blob(&mut self, a: &Allocation) -> usize {
        let mut raw = Vec::with_capacity(a.bytes.len());
        for b in &a.bytes {
            raw.push(b.unwrap_or(0));
        }
        // memo on raw bytes when no pointers
        if a.provenance.ptrs.is_empty() {
            if let Some(&i) = self.blob_ids.get(&raw) {
                return i;
            }
        }
        let mut hex = String::with_capacity(raw.len() * 2);
        const H: &[u8; 16] = b"0123456789abcdef";
        for b in &raw {
            hex.push(H[(b >> 4) as usize] as char);
            hex.push(H[(b & 15) as usize] as char);
        }
        let uninit: Vec<usize> =
            a.bytes.iter().enumerate().filter(|x| x.1.is_none()).map(|x| x.0).collect();
        let uninit_count = uninit.len();
        let ptrs: Vec<String> = a
            .provenance
            .ptrs
            .iter()
            .map(|(off, p)| {
                self.alloc(p.0);
                format!("[{},{}]", off, p.0.to_index())
            })
            .collect();
        let i = self.blobs.len();
        self.blobs.push(format!(
            "{{\"hex\":\"{}\",\"ptrs\":[{}],\"uninit\":{}}}",
            hex,
            ptrs.join(","),
            uninit_count
        ));
        if a.provenance.ptrs.is_empty() {
            self.blob_ids.insert(raw, i);
        }
        i
    }

    fn alloc(&mut self, id: rustc_public::mir::alloc::AllocId) {
        let k = id.to_index();
        if self.allocs.contains_key(&k) {
            return;
        }
        self.allocs.insert(k, "null".into());
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => format!("{{\"k\":\"mem\",\"blob\":{}}}", self.blob(&a)),
            GlobalAlloc::Static(d) => match d.eval_initializer() {
                Ok(a) => {
                    let m = a.mutability == Mutability::Mut;
                    format!(
                        "{{\"k\":\"static\",\"name\":{},\"blob\":{},\"mut\":{},\"ty\":{}}}",
                        esc(&d.name()),
                        self.blob(&a),
                        m,
                        self.ty(d.ty())
                    )
                }
                Err(_) => format!("{{\"k\":\"static\",\"name\":{},\"blob\":null}}", esc(&d.name())),
            },
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"inst\":{}}}", self.inst(i)),
            _ => "{\"k\":\"other\"}".into(),
        };
        self.allocs.insert(k, s);
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("[\"c\",{},{}]", t, self.blob(a)),
            ConstantKind::ZeroSized => format!("[\"z\",{}]", t),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("[\"n\",{},\"{}\"]", t, n),
                Err(_) => format!("[\"?\",{},{}]", t, esc(&format!("{:?}", tc))),
            },
            o => format!("[\"?\",{},{}]", t, esc(&format!("{:?}", o))),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = list(&p.projection, |e| match e {
            ProjectionElem::Deref => "\"*\"".into(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                format!("[\"ss\",{},{},{}]", from, to, from_end)
            }
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(_) => "\"oc\"".into(),
        });
        format!("[{},{}]", p.local, pr)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o = list(ops, |x| self.operand(x));
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            v.to_index(),
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, o)
            }
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            o => format!("[\"other\",{}]", esc(&format!("{:?}", o))),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = list(b.locals(), |l| self.ty(l.ty));
        let names = list(&b.var_debug_info, |v| match v.local() {
            Some(l) => format!("[{},{}]", l, esc(&v.name)),
            None => "null".into(),
        });
        let blocks = list(&b.blocks, |bb| {
            let st: Vec<String> = bb
                .statements
                .iter()
                .filter_map(|s| {
                    let line = s.source_info.span.get_lines().start_line;
                    Some(match &s.kind {
                        StatementKind::Assign(p, r) => {
                            format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), line)
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())
                        }
                        StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                        StatementKind::StorageLive(l) => format!("[\"live\",{}]", l),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                            format!("[\"assume\",{}]", self.operand(o))
                        }
                        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                            format!(
                                "[\"cno\",{},{},{}]",
                                self.operand(&c.src),
                                self.operand(&c.dst),
                                self.operand(&c.count)
                            )
                        }
                        _ => return None,
                    })
                })
                .collect();
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.to_string(),
                _ => "null".into(),
            };
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> =
                        targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b)).collect();
                    format!(
                        "[\"switch\",{},[{}],{}]",
                        self.operand(discr),
                        br.join(","),
                        targets.otherwise()
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = match place.ty(b.locals()) {
                        Ok(t) => {
                            let i = Instance::resolve_drop_in_place(t);
                            if i.is_empty_shim() { "true" } else { "false" }
                        }
                        _ => "false",
                    };
                    format!("[\"drop\",{},{}]", target, pt)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => format!(
                    "[\"call\",{},{},{},{},{}]",
                    self.operand(func),
                    list(args, |x| self.operand(x)),
                    self.place(destination),
                    target.map(|t| t.to_string()).unwrap_or("null".into()),
                    unw(unwind)
                ),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let d = format!("{:?}", msg);
                    let d = d.split(|c| c == '(' || c == ' ').next().unwrap_or("").to_string();
                    let desc = msg.description().unwrap_or("assertion").to_string();
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        target,
                        esc(&d),
                        esc(&desc)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            format!("{{\"s\":[{}],\"t\":{},\"l\":{}}}", st.join(","), t, line)
        });
        format!(
            "{{\"locals\":{},\"argc\":{},\"spread\":{},\"names\":{},\"blocks\":{}}}",
            locals,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            names,
            blocks
        )
    }
}

fn callback(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = std::env::var("VERIF_DUMP").expect("VERIF_DUMP");
    let mut cx = Cx::default();
    if let Ok(s) = std::env::var("VERIF_STOP") {
        cx.stop = s.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    }
    let mut api = Vec::new();
    let mut items = Vec::new();
    let eff = tcx.effective_visibilities(());
    for ldid in tcx.hir_crate_items(()).definitions() {
        let did = ldid.to_def_id();
        let kind = tcx.def_kind(did);
        use rustc_hir::def::DefKind::*;
        let exported = eff.is_exported(ldid);
        let path = tcx.def_path_str(did);
        let sp = tcx.def_span(did);
        let loc = tcx.sess.source_map().span_to_diagnostic_string(sp);
        match kind {
            Fn | AssocFn => {
                let sig = format!("{}", tcx.fn_sig(did).instantiate_identity().skip_norm_wip());
                items.push(format!(
                    "{{\"kind\":\"fn\",\"path\":{},\"exported\":{},\"sig\":{},\"loc\":{},\"unsafe\":{}}}",
                    esc(&path),
                    exported,
                    esc(&sig),
                    esc(&loc),
                    tcx.fn_sig(did).skip_binder().safety().is_unsafe()
                ));
                let gens = tcx.generics_of(did);
                let mono = !gens.requires_monomorphization(tcx);
                if mono {
                    let args = rustc_middle::ty::GenericArgs::identity_for_item(tcx, did);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let inst = rustc_middle::ty::Instance::try_resolve(
                        tcx,
                        rustc_middle::ty::TypingEnv::fully_monomorphized(),
                        did,
                        args,
                    );
                    if let Ok(Some(i)) = inst {
                        let i: Instance = rustc_public::rustc_internal::stable(i);
                        if exported {
                            let id = cx.inst(i);
                            api.push(format!("[{},{}]", esc(&path), id));
                        }
                    }
                }
            }
            Static { .. } | Const { .. } | Struct | Enum | Mod | TyAlias | Trait | Union | ExternCrate
            | ForeignMod => {
                let ty = match kind {
                    Static { .. } | Const { .. } => {
                        format!("{}", tcx.type_of(did).instantiate_identity().skip_norm_wip())
                    }
                    _ => String::new(),
                };
                items.push(format!(
                    "{{\"kind\":{},\"path\":{},\"exported\":{},\"loc\":{},\"ty\":{}}}",
                    esc(&format!("{:?}", kind)),
                    esc(&path),
                    exported,
                    esc(&loc),
                    esc(&ty)
                ));
            }
            _ => {}
        }
    }
    // Functions reachable under a second name through re-exports.
    let mut mods: Vec<(String, rustc_span::def_id::LocalDefId)> = vec![(String::new(), rustc_span::def_id::CRATE_DEF_ID)];
    let mut seen_mods = BTreeSet::new();
    while let Some((prefix, m)) = mods.pop() {
        if !seen_mods.insert((prefix.clone(), m.local_def_index.as_u32())) || prefix.len() > 200 {
            continue;
        }
        let mut kids: Vec<(String, rustc_span::def_id::DefId, rustc_hir::def::DefKind, bool)> = Vec::new();
        for ch in tcx.module_children_local(m) {
            if let rustc_hir::def::Res::Def(k, d) = ch.res {
                kids.push((ch.ident.name.to_string(), d, k, ch.vis.is_public()));
            }
        }
        for it in tcx.hir_crate_items(()).free_items() {
            let d = it.owner_id.to_def_id();
            let k = tcx.def_kind(d);
            if matches!(k, rustc_hir::def::DefKind::Mod) && tcx.parent(d) == m.to_def_id() {
                kids.push((tcx.item_name(d).to_string(), d, k, tcx.visibility(d).is_public()));
            }
        }
        for (n, d, k, public) in kids {
            if !public {
                continue;
            }
            let path = if prefix.is_empty() { n } else { format!("{}::{}", prefix, n) };
            if let (rustc_hir::def::DefKind::Mod, Some(l)) = (k, d.as_local()) {
                mods.push((path, l));
            } else if matches!(k, rustc_hir::def::DefKind::Fn)
                && d.is_local()
                && !tcx.generics_of(d).requires_monomorphization(tcx)
            {
                let args = rustc_middle::ty::GenericArgs::identity_for_item(tcx, d);
                let args = tcx.erase_and_anonymize_regions(args);
                let inst = rustc_middle::ty::Instance::try_resolve(
                    tcx,
                    rustc_middle::ty::TypingEnv::fully_monomorphized(),
                    d,
                    args,
                );
                if let Ok(Some(i)) = inst {
                    let i: Instance = rustc_public::rustc_internal::stable(i);
                    let id = cx.inst(i);
                    let e = format!("[{},{}]", esc(&path), id);
                    if !api.contains(&e) {
                        api.push(e);
                    }
                }
            }
        }
    }
    // Bodies, transitively.
    let mut fns = Vec::new();
    while let Some(k) = cx.queue.pop_front() {
        let i = cx.insts[k];
        let name = i.name();
        let krate = {
            let d: rustc_middle::ty::Instance<'_> = rustc_public::rustc_internal::internal(tcx, i);
            let did = d.def_id();
            (tcx.crate_name(did.krate).to_string(), tcx.def_path_str(did))
        };
        let intr = i.intrinsic_name();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let stopped = cx.stop.iter().any(|s| krate.1.starts_with(s.as_str()));
        let never = {
            match i.ty().kind() {
                TyKind::RigidTy(RigidTy::FnDef(..)) => i
                    .ty()
                    .kind()
                    .fn_sig()
                    .map(|s| s.skip_binder().output().kind() == TyKind::RigidTy(RigidTy::Never))
                    .unwrap_or(false),
                _ => false,
            }
        };
        let foreign = i.is_foreign_item();
        let args = cx.args(&i.args());
        let body = if stopped || never || foreign || matches!(i.kind, InstanceKind::Intrinsic) {
            if stopped {
                cx.skipped.insert(krate.1.clone());
            }
            None
        } else {
            // a body the compiler cannot hand out is treated as unknown
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body())) {
                Ok(b) => b,
                Err(_) => {
                    eprintln!("no body for {}", name);
                    None
                }
            }
        };
        let (file, line) = match &body {
            Some(b) => (b.span.get_filename().to_string(), b.span.get_lines().start_line),
            None => (String::new(), 0),
        };
        let b = match body {
            Some(b) => cx.body(&b),
            None => "null".into(),
        };
        fns.push(format!(
            "{{\"id\":{},\"name\":{},\"path\":{},\"crate\":{},\"kind\":\"{}\",\"intrinsic\":{},\"args\":{},\"never\":{},\"foreign\":{},\"file\":{},\"line\":{},\"body\":{}}}",
            k,
            esc(&name),
            esc(&krate.1),
            esc(&krate.0),
            kind,
            intr.map(|s| esc(&s)).unwrap_or("null".into()),
            args,
            never,
            foreign,
            esc(&file),
            line,
            b
        ));
    }
    let types: Vec<String> = cx.types.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let allocs: Vec<String> = cx.allocs.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let s = format!(
        "{{\"api\":[{}],\n\"items\":[{}],\n\"fns\":[{}],\n\"types\":{{{}}},\n\"allocs\":{{{}}},\n\"blobs\":[{}]}}\n",
        api.join(","),
        items.join(",\n"),
        fns.join(",\n"),
        types.join(",\n"),
        allocs.join(",\n"),
        cx.blobs.join(",\n")
    );
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = run_with_tcx!(&args, callback);
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}
