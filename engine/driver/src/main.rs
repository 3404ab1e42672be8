// Dumps monomorphic MIR of /repo's crate (and of whatever it reaches) as JSON lines.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde_json;
use rustc_public::abi::{FieldsShape, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use serde_json::{json, Value as J};
use std::collections::{HashMap, VecDeque};
use std::io::Write;

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    adt_done: HashMap<Ty, ()>,
    out: std::io::BufWriter<std::fs::File>,
}

fn def_krate(n: &impl CrateDef) -> String { n.krate().name }

const ALLOW: &[&str] = &[
    "std::option::", "<std::option::", "std::result::", "<std::result::", "std::convert::", "std::ops::",
    "core::ops::", "std::cmp::", "<std::cmp::", "std::borrow::", "std::mem::", "core::option", "core::result",
    "serde::de::MapAccess", "serde::de::EnumAccess", "serde::de::VariantAccess", "serde::de::Visitor", "serde::ser::SerializeMap", "serde::Deserializer", "serde::Serializer", "<T as std::convert", "<std::marker::PhantomData", "serde_core::ser::", "std::iter::", "<std::iter::", "core::iter::",
    "std::bool::", "std::boxed::", "<std::ops::", "core::str::<impl str>::parse", "std::str::<impl str>::parse",
];
const DENY: &[&str] = &["std::ops::drop", "std::convert::num", "std::mem::drop"];

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let v = self.ty_desc(t);
        self.ty_out[i] = v;
        i
    }
    fn gargs(&mut self, a: &GenericArgs) -> Vec<J> {
        let mut r = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => { let i = self.ty(*t); r.push(json!(i)) }
                GenericArgKind::Const(c) => r.push(json!({"c": c.eval_target_usize().ok()})),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        r
    }
    fn ty_desc(&mut self, t: Ty) -> J {
        let k = t.kind();
        let r = match &k { TyKind::RigidTy(r) => r.clone(), _ => return json!({"k":"other","s":format!("{k:?}")}) };
        match r {
            RigidTy::Bool => json!({"k":"bool"}),
            RigidTy::Char => json!({"k":"char"}),
            RigidTy::Int(i) => json!({"k":"int","s":format!("{i:?}"),"b":i.num_bytes()}),
            RigidTy::Uint(i) => json!({"k":"uint","s":format!("{i:?}"),"b":i.num_bytes()}),
            RigidTy::Float(f) => json!({"k":"float","s":format!("{f:?}")}),
            RigidTy::Str => json!({"k":"str"}),
            RigidTy::Never => json!({"k":"never"}),
            RigidTy::Slice(e) => { let e = self.ty(e); json!({"k":"slice","e":e}) }
            RigidTy::Array(e, n) => { let e = self.ty(e); json!({"k":"array","e":e,"n":n.eval_target_usize().ok()}) }
            RigidTy::RawPtr(e, m) => { let e = self.ty(e); json!({"k":"ptr","e":e,"m":format!("{m:?}")}) }
            RigidTy::Ref(_, e, m) => { let e = self.ty(e); json!({"k":"ref","e":e,"m":matches!(m,Mutability::Mut)}) }
            RigidTy::Tuple(es) => { let es: Vec<_> = es.iter().map(|e| self.ty(*e)).collect(); json!({"k":"tuple","es":es}) }
            RigidTy::FnDef(d, a) => {
                let ga = self.gargs(&a);
                let inst = Instance::resolve(d, &a).ok().map(|i| self.inst(i));
                json!({"k":"fndef","name":d.name(),"args":ga,"inst":inst})
            }
            RigidTy::FnPtr(s) => json!({"k":"fnptr","s":format!("{s:?}")}),
            RigidTy::Closure(d, a) => {
                let inst = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok().map(|i| self.inst(i));
                let ups = match a.0.last() { Some(GenericArgKind::Type(t)) => match t.kind() { TyKind::RigidTy(RigidTy::Tuple(es)) => es.iter().map(|e| self.ty(*e)).collect(), _ => vec![] }, _ => vec![] };
                let kind = a.0.iter().rev().nth(2).map(|k| match k { GenericArgKind::Type(t) => format!("{:?}", t.kind()), _ => String::new() });
                json!({"k":"closure","name":d.name(),"inst":inst,"ups":ups,"kind":kind})
            }
            RigidTy::Dynamic(p, _) => json!({"k":"dyn","s":format!("{:?}", p.iter().map(|b| match &b.value { ExistentialPredicate::Trait(t) => t.def_id.name(), ExistentialPredicate::AutoTrait(t)=>t.name(), ExistentialPredicate::Projection(_)=>"proj".into() }).collect::<Vec<_>>())}),
            RigidTy::Adt(d, a) => {
                let ga = self.gargs(&a);
                let name = d.name();
                let ak = d.kind();
                let full = matches!(ak, AdtKind::Enum | AdtKind::Struct);
                let krate = def_krate(&d);
                let mut vs = vec![];
                let deep = full && (!matches!(krate.as_str(), "std"|"alloc"|"core"|"hashbrown") || name.starts_with("std::option::") || name.starts_with("std::result::") || name.starts_with("std::ops::ControlFlow") || name.starts_with("std::cmp::") || name.starts_with("std::marker::") || name.starts_with("std::iter::") || name.starts_with("std::convert::") || name.starts_with("std::borrow::"));
                if deep {
                    for v in d.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() { let ft = f.ty_with_args(&a); let ti = self.ty(ft); fs.push(json!([f.name.clone(), ti])); }
                        let disc = if ak.is_enum() { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        let mut vn = v.name();
                        if vn.is_empty() { vn = name.clone(); }
                        vs.push(json!({"name":vn,"fields":fs,"d":disc}));
                    }
                }
                let sp = d.span();
                let l = sp.get_lines();
                json!({"k":"adt","name":name,"args":ga,"kind":format!("{ak:?}"),"vs":vs,"deep":deep,"krate":krate,"box":d.is_box(),
                    "line":[l.start_line,l.end_line]})
            }
            other => json!({"k":"other","s":format!("{other:?}")}),
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) { return *k; }
        let k = self.insts.len();
        self.insts.insert(i, k);
        self.queue.push_back((k, i));
        k
    }
    fn want_body(&self, i: &Instance, name: &str, def: &str, krate: &str) -> bool {
        if matches!(i.kind, InstanceKind::Virtual{..} | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) { return false; }
        match krate {
            "rust_mcp_schema" | "vharness" => true,
            _ => {
                if i.kind == InstanceKind::Shim { return !name.contains("drop_in_place") && !name.contains("drop_glue"); }
                if DENY.iter().any(|p| name.contains(p) || def.contains(p)) { return false; }
                ALLOW.iter().any(|p| name.starts_with(p) || def.starts_with(p)) || name.contains("std::string::ToString>::to_string") || name.contains("std::string::SpecToString>::spec_to_string")
            }
        }
    }
    fn alloc_val(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        if depth > 6 { return json!({"raw":1}); }
        let TyKind::RigidTy(r) = t.kind() else { return json!({"raw":1}) };
        let uint = |o: usize, n: usize| a.read_partial_uint(o..o+n).ok();
        let ptr = |o: usize| a.provenance.ptrs.iter().find(|(p,_)| *p == o).map(|(_,p)| p.0);
        match r {
            RigidTy::Bool => json!({"b": uint(off,1) == Some(1)}),
            RigidTy::Char => json!({"ch": uint(off,4).map(|x| x as u64)}),
            RigidTy::Int(i) => { let n = i.num_bytes(); match uint(off,n) { Some(v) => { let sh = 128 - 8*n as u32; let s = ((v << sh) as i128) >> sh; json!({"i": s.to_string()}) } None => json!({"raw":1}) } }
            RigidTy::Uint(i) => match uint(off, i.num_bytes()) { Some(v) => json!({"i": v.to_string()}), None => json!({"raw":1}) },
            RigidTy::Float(_) => json!({"f": uint(off, 8).map(|x| f64::from_bits(x as u64).to_string())}),
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some(id) = ptr(off) else { return json!({"raw":"noprov"}) };
                let base = uint(off, 8).unwrap_or(0) as usize;
                match (GlobalAlloc::from(id), e.kind()) {
                    (GlobalAlloc::Memory(m), TyKind::RigidTy(RigidTy::Str)) => {
                        let n = uint(off+8, 8).unwrap_or(0) as usize;
                        let b: Vec<u8> = m.bytes[base..base+n].iter().map(|x| x.unwrap_or(0)).collect();
                        json!({"s": String::from_utf8_lossy(&b)})
                    }
                    (GlobalAlloc::Memory(m), TyKind::RigidTy(RigidTy::Slice(el))) => {
                        let n = uint(off+8, 8).unwrap_or(0) as usize;
                        let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(1);
                        let xs: Vec<J> = (0..n.min(4096)).map(|k| self.alloc_val(el, &m, base + k*sz, depth+1)).collect();
                        let et = self.ty(el);
                        json!({"slice": xs, "e": et})
                    }
                    (GlobalAlloc::Memory(m), _) => { let v = self.alloc_val(e, &m, base, depth+1); json!({"ref": v}) }
                    (GlobalAlloc::Static(s), _) => json!({"static": s.name()}),
                    _ => json!({"raw":"ptr"}),
                }
            }
            RigidTy::Array(el, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(1);
                if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = el.kind() {
                    let b: Vec<u8> = a.bytes[off..off+n].iter().map(|x| x.unwrap_or(0)).collect();
                    return json!({"bytes": b});
                }
                let xs: Vec<J> = (0..n.min(4096)).map(|k| self.alloc_val(el, a, off + k*sz, depth+1)).collect();
                json!({"arr": xs})
            }
            RigidTy::Tuple(es) => {
                let Ok(l) = t.layout() else { return json!({"raw":1}) };
                let FieldsShape::Arbitrary{offsets} = l.shape().fields else { return json!({"agg": [], "v": 0}) };
                let xs: Vec<J> = es.iter().enumerate().map(|(k,e)| self.alloc_val(*e, a, off + offsets[k].bytes(), depth+1)).collect();
                json!({"agg": xs, "v": 0})
            }
            RigidTy::Adt(d, ga) => {
                let Ok(l) = t.layout() else { return json!({"raw":1}) };
                let sh = l.shape();
                match sh.variants {
                    VariantsShape::Single{index} => {
                        let Some(v) = d.variant(index) else { return json!({"raw":1}) };
                        let offs = match sh.fields { FieldsShape::Arbitrary{offsets} => offsets, _ => vec![] };
                        let xs: Vec<J> = v.fields().iter().enumerate().map(|(k,f)| { let ft = f.ty_with_args(&ga); let o = offs.get(k).map(|x| x.bytes()).unwrap_or(0); self.alloc_val(ft, a, off+o, depth+1) }).collect();
                        json!({"agg": xs, "v": index.to_index()})
                    }
                    VariantsShape::Multiple{tag, tag_encoding, tag_field, variants} => {
                        let offs = match sh.fields { FieldsShape::Arbitrary{offsets} => offsets, _ => vec![] };
                        let toff = offs.get(tag_field).map(|x| x.bytes()).unwrap_or(0);
                        let sz = match tag { rustc_public::abi::Scalar::Initialized{value, ..} | rustc_public::abi::Scalar::Union{value} => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                        let isptr = ptr(off+toff).is_some();
                        let tagv = uint(off+toff, sz);
                        let Some(tagv) = tagv else { return json!({"raw":"tag"}) };
                        let vi = match tag_encoding {
                            rustc_public::abi::TagEncoding::Direct => {
                                let mut r = None;
                                for v in d.variants_iter() { let dv = d.discriminant_for_variant(v.idx()).val; let mask = if sz>=16 {u128::MAX} else {(1u128<<(8*sz))-1}; if dv & mask == tagv { r = Some(v.idx()); } }
                                match r { Some(v) => v, None => return json!({"raw":"disc"}) }
                            }
                            rustc_public::abi::TagEncoding::Niche{untagged_variant, niche_variants, niche_start} => {
                                let mask = if sz>=16 {u128::MAX} else {(1u128<<(8*sz))-1};
                                let rel = tagv.wrapping_sub(niche_start) & mask;
                                let lo = niche_variants.start().to_index(); let hi = niche_variants.end().to_index();
                                if !isptr && rel <= (hi-lo) as u128 { match d.variants_iter().nth(lo + rel as usize) { Some(v) => v.idx(), None => return json!({"raw":1}) } } else { untagged_variant }
                            }
                        };
                        let Some(v) = d.variant(vi) else { return json!({"raw":1}) };
                        let voffs = variants.get(vi.to_index()).map(|f| f.offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()).unwrap_or_default();
                        let xs: Vec<J> = v.fields().iter().enumerate().map(|(k,f)| { let ft = f.ty_with_args(&ga); let o = voffs.get(k).copied().unwrap_or(0); self.alloc_val(ft, a, off+o, depth+1) }).collect();
                        json!({"agg": xs, "v": vi.to_index()})
                    }
                    _ => json!({"raw":1}),
                }
            }
            _ => json!({"raw":1}),
        }
    }
    fn konst(&mut self, c: &ConstOperand) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        match c.const_.kind() {
            ConstantKind::ZeroSized => json!({"k":"const","ty":ti,"zst":1}),
            ConstantKind::Allocated(a) => { let v = self.alloc_val(t, a, 0, 0); json!({"k":"const","ty":ti,"v":v}) }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => { let v = self.alloc_val(t, a, 0, 0); json!({"k":"const","ty":ti,"v":v}) }
                TyConstKind::ZSTValue(_) => json!({"k":"const","ty":ti,"zst":1}),
                o => json!({"k":"const","ty":ti,"v":{"raw":format!("{o:?}")}}),
            },
            o => json!({"k":"const","ty":ti,"v":{"raw":format!("{o:?}")}}),
        }
    }
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); json!([i, t]) }
                ProjectionElem::Downcast(i) => json!({"d": i.to_index()}),
                ProjectionElem::Index(l) => json!({"ix": l}),
                ProjectionElem::ConstantIndex{offset, min_length, from_end} => json!({"ci":[offset,min_length,from_end]}),
                ProjectionElem::Subslice{from,to,from_end} => json!({"ss":[from,to,from_end]}),
                ProjectionElem::OpaqueCast(_) => json!({"oc":1}),
            });
        }
        json!([p.local, v])
    }
    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p); json!({"k":"copy","p":p}) }
            Operand::Move(p) => { let p = self.place(p); json!({"k":"move","p":p}) }
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => json!({"k":"rtc"}),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(o, _) => { let o = self.op(o); json!(["use", o]) }
            Rvalue::Ref(_, b, p) => { let m = matches!(b, BorrowKind::Mut{..}); let p = self.place(p); json!(["ref", p, m]) }
            Rvalue::AddressOf(_, p) => { let p = self.place(p); json!(["ref", p, true]) }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); json!(["use", {"k":"copy","p":p}]) }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(p); json!(["use", {"k":"copy","p":p}, format!("{m:?}")]) }
            Rvalue::Discriminant(p) => { let p = self.place(p); json!(["disc", p]) }
            Rvalue::Len(p) => { let p = self.place(p); json!(["len", p]) }
            Rvalue::BinaryOp(b, x, y) => { let x = self.op(x); let y = self.op(y); json!(["bin", format!("{b:?}"), x, y]) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let x = self.op(x); let y = self.op(y); json!(["cbin", format!("{b:?}"), x, y]) }
            Rvalue::UnaryOp(u, x) => { let x = self.op(x); json!(["un", format!("{u:?}"), x]) }
            Rvalue::Cast(k, o, t) => { let o = self.op(o); let t = self.ty(*t); json!(["cast", format!("{k:?}"), o, t]) }
            Rvalue::Repeat(o, n) => { let o = self.op(o); json!(["repeat", o, n.eval_target_usize().ok()]) }
            Rvalue::ThreadLocalRef(_) => json!(["tls"]),
            Rvalue::Aggregate(k, os) => {
                let os: Vec<J> = os.iter().map(|o| self.op(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); json!(["array", t]) }
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, v, a, _, af) => { let t = d.ty_with_args(a); let t = self.ty(t); json!(["adt", t, v.to_index(), af]) }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); let t = self.ty(t); json!(["closure", t]) }
                    AggregateKind::RawPtr(..) => json!(["rawptr"]),
                    _ => json!(["other"]),
                };
                json!(["agg", k, os])
            }
        }
    }
    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| { let t = self.ty(l.ty); json!(t) }).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rv(r); ss.push(json!(["=", p, r])) }
                    StatementKind::SetDiscriminant{place, variant_index} => { let p = self.place(place); ss.push(json!(["sd", p, variant_index.to_index()])) }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let o = self.op(o); ss.push(json!(["assume", o])) }
                    StatementKind::Intrinsic(_) => ss.push(json!(["intr"])),
                    StatementKind::StorageDead(l) => ss.push(json!(["dead", l])),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto{target} => json!({"t":"goto","to":target}),
                TerminatorKind::SwitchInt{discr, targets} => {
                    let d = self.op(discr);
                    let br: Vec<J> = targets.branches().map(|(v,b)| json!([v.to_string(), b])).collect();
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t)).ok();
                    json!({"t":"switch","d":d,"br":br,"else":targets.otherwise(),"dt":dt})
                }
                TerminatorKind::Return => json!({"t":"ret"}),
                TerminatorKind::Unreachable => json!({"t":"unreach"}),
                TerminatorKind::Resume | TerminatorKind::Abort => json!({"t":"abort"}),
                TerminatorKind::Drop{place, target, ..} => { let p = self.place(place); json!({"t":"drop","p":p,"to":target}) }
                TerminatorKind::Assert{cond, expected, target, msg, ..} => { let c = self.op(cond); json!({"t":"assert","c":c,"e":expected,"to":target,"msg":msg.description().unwrap_or("assert")}) }
                TerminatorKind::Call{func, args, destination, target, ..} => {
                    let args: Vec<J> = args.iter().map(|a| self.op(a)).collect();
                    let dest = self.place(destination);
                    let mut f = json!(null);
                    let fty = func.ty(b.locals()).ok().map(|t| t.kind());
                    if let Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) = fty {
                        let ga = self.gargs(&a);
                        let inst = Instance::resolve(d, &a).ok();
                        let (id, virt) = match inst { Some(i) => (Some(self.inst(i)), matches!(i.kind, InstanceKind::Virtual{..})), None => (None, false) };
                        f = json!({"def": d.name(), "args": ga, "inst": id, "virt": virt});
                    } else { let o = self.op(func); f["dynf"] = o; }
                    json!({"t":"call","f":f,"args":args,"dest":dest,"to":target,"line":line})
                }
                TerminatorKind::InlineAsm{..} => json!({"t":"asm"}),
            };
            blocks.push(json!([ss, t]));
        }
        let dbg: Vec<J> = b.var_debug_info.iter().filter_map(|v| v.local().map(|l| json!([v.name, l]))).collect();
        json!({"argc": b.arg_locals().len(), "locals": locals, "blocks": blocks, "dbg": dbg, "spread": b.spread_arg()})
    }
    fn run(&mut self) {
        let local = rustc_public::local_crate();
        // type arguments for generic roots
        let mut rt: HashMap<&str, Ty> = HashMap::new();
        for f in local.fn_defs() {
            if f.name().ends_with("root_types") {
                let sig = f.fn_sig().skip_binder();
                for (n, t) in ["de","ser","err","map","string","value","hasher","vecs","opt","kv","str"].iter().zip(sig.inputs()) { rt.insert(n, *t); }
            }
        }
        let mut roots = vec![];
        let mut skipped = vec![];
        for c in rustc_public::find_crates("rust_mcp_schema") {
            for f in c.fn_defs() {
                let name = f.name();
                if !f.has_body() { continue; }
                if name.contains(" as std::fmt::Debug>::") || name.contains("__FieldVisitor") || (name.contains("::__Visitor<") && !name.ends_with("::visit_map")) || name.contains("StructuralPartialEq") { continue; }
                // identity arguments (parents included)
                let ident = match f.ty().kind() { TyKind::RigidTy(RigidTy::FnDef(_, a)) => a, _ => continue };
                let mut args = vec![];
                let mut ok = true;
                let mut subst = vec![];
                for g in &ident.0 {
                    match g {
                        GenericArgKind::Lifetime(_) => args.push(GenericArgKind::Lifetime(Region{kind: RegionKind::ReErased})),
                        GenericArgKind::Type(t) => {
                            let pn = match t.kind() { TyKind::Param(p) => p.name.clone(), _ => { ok = false; continue } };
                            let pn = pn.as_str();
                            let key = match pn {
                                "__D" | "D" => "de", "S" | "__S" if name.contains("erializ") => "ser",
                                "__E" => "err", "E" => "err", "A" | "__A" | "M" if name.contains("visit_map") => "map",
                                "H" | "__H" => "hasher", "V" => "value",
                                "impl Into<Option<String>>" => "opt",
                                "I" | "impl IntoIterator<Item = String>" => "vecs", "impl IntoIterator<Item = (K, V)>" => "kv",
                                _ => "string",
                            };
                            // a value inserted into a map the receiver wraps: the type of its entries
                            let entry = if pn == "V" { f.fn_sig().skip_binder().inputs().first().and_then(|t| match t.kind() {
                                TyKind::RigidTy(RigidTy::Adt(d, a)) => d.variants().first().and_then(|v| v.fields().first().map(|x| x.ty_with_args(&a))),
                                _ => None,
                            }).and_then(|t| match t.kind() {
                                TyKind::RigidTy(RigidTy::Adt(d, a)) if d.name().ends_with("BTreeMap") => a.0.get(1).and_then(|g| g.ty().copied()),
                                _ => None,
                            }) } else { None };
                            if let Some(t) = entry { subst.push(format!("{pn}=entry")); args.push(GenericArgKind::Type(t)); continue; }
                            subst.push(format!("{pn}={key}"));
                            match rt.get(key) { Some(t) => args.push(GenericArgKind::Type(*t)), None => ok = false }
                        }
                        _ => ok = false,
                    }
                }
                if name.contains("into_result") { skipped.push(name); continue; }
                if !ok { skipped.push(name); continue; }
                let ga = GenericArgs(args);
                match Instance::resolve(f, &ga) {
                    Ok(i) => { let id = self.inst(i); roots.push(json!({"id": id, "def": name, "subst": subst})); }
                    Err(_) => skipped.push(name),
                }
            }
        }
        writeln!(self.out, "{}", json!({"roots": roots, "skipped": skipped})).unwrap();
        let mut n = 0usize;
        while let Some((id, i)) = self.queue.pop_front() {
            n += 1;
            if n > 400000 { panic!("too many instances"); }
            let name = i.name();
            let d = i.def;
            let _ = d;
            let fd = match i.ty().kind() { TyKind::RigidTy(RigidTy::FnDef(d, _)) => Some((d.name(), def_krate(&d))), TyKind::RigidTy(RigidTy::Closure(d, _)) => Some((d.name(), def_krate(&d))), _ => None };
            let (def, krate) = fd.unwrap_or((name.clone(), String::new()));
            let a = i.args();
            let ga = self.gargs(&a);
            let kind = match i.kind { InstanceKind::Virtual{idx} => format!("virtual{idx}"), InstanceKind::Intrinsic => "intrinsic".into(), InstanceKind::Shim => "shim".into(), _ => "item".to_string() };
            let mut b = J::Null;
            if self.want_body(&i, &name, &def, &krate) {
                if let Some(body) = i.body() { b = self.body(&body); }
            }
            let line = if !b.is_null() && krate == "rust_mcp_schema" { match i.ty().kind() { TyKind::RigidTy(RigidTy::FnDef(d, _)) => { let s = d.span(); json!([s.get_filename(), s.get_lines().start_line]) } TyKind::RigidTy(RigidTy::Closure(d, _)) => { let s = d.span(); json!([s.get_filename(), s.get_lines().start_line]) } _ => J::Null } } else { J::Null };
            writeln!(self.out, "{}", json!({"id": id, "name": name, "def": def, "krate": krate, "gargs": ga, "kind": kind, "body": b, "at": line})).unwrap();
        }
        // impls of the crate: (trait, self type)
        for (i, t) in self.ty_out.iter().enumerate() { writeln!(self.out, "{}", json!({"ty": i, "d": t})).unwrap(); }
        self.out.flush().unwrap();
    }
}
trait ToIndex { fn to_index(&self) -> usize; }
impl ToIndex for VariantIdx { fn to_index(&self) -> usize { rustc_public_idx(self) } }
fn rustc_public_idx(v: &VariantIdx) -> usize { serde_json::to_value(v).ok().and_then(|x| x.as_u64()).unwrap() as usize }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut a = args.clone();
    if a.len() > 1 && a[1].ends_with("rustc") { a.remove(1); }
    let r = run!(&a, || -> std::ops::ControlFlow<(), ()> {
        let k = rustc_public::local_crate();
        if k.name == "vharness" {
            if let Ok(p) = std::env::var("MIRDUMP_OUT") {
                let mut cx = Cx { tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), queue: VecDeque::new(), adt_done: HashMap::new(), out: std::io::BufWriter::new(std::fs::File::create(p).unwrap()) };
                cx.run();
            }
        }
        std::ops::ControlFlow::Continue(())
    });
    if let Err(rustc_public::CompilerError::Failed) = r { std::process::exit(1) }
}
