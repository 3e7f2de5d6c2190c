//! MIR server: runs as RUSTC_WORKSPACE_WRAPPER on the spec crate and serves the
//! type-checked, monomorphised program (MIR bodies, types, layouts, constants,
//! resolved callees) as JSON lines over a Unix socket to the analyser.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_span;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_middle::ty::TyCtxt as Tcx;
use rustc_public::abi::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal as ri;
use rustc_public::ty::*;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::ops::ControlFlow as CF;
use std::os::unix::net::UnixStream;

struct S<'t> {
    tcx: Tcx<'t>,
    tys: Vec<Ty>,
    tyidx: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    instidx: HashMap<Instance, usize>,
    new_insts: Vec<usize>,
    allocs: Vec<AllocId>,
    allocidx: HashMap<AllocId, usize>,
}

impl<'t> S<'t> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        self.tys.push(t);
        self.tyidx.insert(t, self.tys.len() - 1);
        self.tys.len() - 1
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(i) = self.instidx.get(&t) {
            return *i;
        }
        self.insts.push(t);
        let i = self.insts.len() - 1;
        self.instidx.insert(t, i);
        self.new_insts.push(i);
        i
    }
    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(i) = self.allocidx.get(&a) {
            return *i;
        }
        self.allocs.push(a);
        let i = self.allocs.len() - 1;
        self.allocidx.insert(a, i);
        i
    }
    fn path(&self, d: rustc_public::DefId) -> String {
        let did = ri::internal(self.tcx, d);
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(did)
        ))
    }
    fn krate(&self, d: rustc_public::DefId) -> String {
        let did = ri::internal(self.tcx, d);
        self.tcx.crate_name(did.krate).to_string()
    }
    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in a.0.iter() {
            match x {
                GenericArgKind::Type(t) => v.push(json!(self.ty(*t))),
                GenericArgKind::Const(c) => v.push(json!({"c": c.eval_target_usize().ok()})),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::Array(v)
    }
    fn inst_info(&mut self, i: usize) -> J {
        let t = self.insts[i];
        let did = t.def.def_id();
        let kind = match t.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intr",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virt",
            InstanceKind::Shim => "shim",
        };
        let vidx = if let InstanceKind::Virtual { idx } = t.kind { Some(idx) } else { None };
        let args = t.args();
        let iargs = self.args(&args);
        let idid = ri::internal(self.tcx, did);
        let is_clos = self.tcx.is_closure_like(idid);
        let is_ctor = self.tcx.is_constructor(idid);
        let local = idid.krate;
        let mut trait_m = J::Null;
        if let Some(ai) = self.tcx.opt_associated_item(idid) {
            if let Some(tr) = ai.trait_item_def_id() {
                trait_m = json!(rustc_middle::ty::print::with_no_trimmed_paths!(
                    rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(tr))));
            }
        }
        // for shims on fn items: the underlying target
        let mut target = J::Null;
        if let InstanceKind::Shim = t.kind {
            if let Some(GenericArgKind::Type(t0)) = args.0.get(0) {
                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t0.kind() {
                    if let Ok(x) = Instance::resolve(d, &a) {
                        target = json!(self.inst(x));
                    }
                }
            }
        }
        json!({"id": i, "kind": kind, "vidx": vidx, "name": t.name().to_string(), "path": self.path(did),
          "krate": self.krate(did), "args": iargs, "closure": is_clos, "ctor": is_ctor, "tm": trait_m,
          "intr": t.intrinsic_name().map(|s| s.to_string()), "has_body": t.has_body(), "target": target,
          "local": local.as_u32() == 0, "empty": matches!(t.kind, InstanceKind::Shim) && t.is_empty_shim()})
    }
    fn scalar(&self, s: &Scalar) -> J {
        let (p, lo, hi) = match s {
            Scalar::Initialized { value, valid_range } => (value, Some(valid_range.start), Some(valid_range.end)),
            Scalar::Union { value } => (value, None, None),
        };
        let k = match p {
            Primitive::Int { length, signed } => json!({"k":"int","bits":length.bits(),"s":signed}),
            Primitive::Float { length } => json!({"k":"float","bits":length.bits()}),
            Primitive::Pointer(_) => json!({"k":"ptr","bits":64}),
        };
        json!({"p":k, "lo": lo.map(|x| x.to_string()), "hi": hi.map(|x| x.to_string())})
    }
    fn layout(&mut self, t: Ty) -> J {
        let l = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return J::Null,
        };
        let f = match &l.fields {
            FieldsShape::Primitive => json!("prim"),
            FieldsShape::Union(n) => json!({"union": n.get()}),
            FieldsShape::Array { stride, count } => json!({"stride": stride.bytes(), "count": count}),
            FieldsShape::Arbitrary { offsets } => json!(offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()),
        };
        let v = match &l.variants {
            VariantsShape::Empty => json!("empty"),
            VariantsShape::Single { index } => json!({"single": index.to_index()}),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let e = match tag_encoding {
                    TagEncoding::Direct => json!("direct"),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => json!({
                        "untagged": untagged_variant.to_index(), "lo": niche_variants.start().to_index(),
                        "hi": niche_variants.end().to_index(), "start": niche_start.to_string()}),
                };
                let vs: Vec<J> = variants
                    .iter()
                    .map(|v| json!(v.offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()))
                    .collect();
                json!({"tag": self.scalar(tag), "enc": e, "tag_field": tag_field, "variants": vs})
            }
        };
        json!({"size": l.size.bytes(), "align": l.abi_align, "fields": f, "variants": v, "unsized": l.is_unsized()})
    }
    fn ty_info(&mut self, i: usize) -> J {
        let t = self.tys[i];
        let lay = self.layout(t);
        let name = format!("{}", ri::internal(self.tcx, t));
        let mut o = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(x) => json!({"k":"int","s":true,"bits": x.num_bytes()*8}),
                RigidTy::Uint(x) => json!({"k":"int","s":false,"bits": x.num_bytes()*8}),
                RigidTy::Float(f) => json!({"k":"float","bits": match f {FloatTy::F16=>16,FloatTy::F32=>32,FloatTy::F64=>64,FloatTy::F128=>128}}),
                RigidTy::Adt(d, a) => {
                    let k = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let args = self.args(&a);
                    let mut vs = vec![];
                    for (vi, v) in d.variants().into_iter().enumerate() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&a);
                            fs.push(json!([f.name.to_string(), self.ty(ft)]));
                        }
                        let discr = if d.kind() == AdtKind::Enum {
                            d.discriminant_for_variant(VariantIdx::to_val(vi)).val.to_string()
                        } else { "0".to_string() };
                        vs.push(json!({"name": v.name().to_string(), "fields": fs, "discr": discr}));
                    }
                    json!({"k":"adt","adt":k,"path":self.path(d.def_id()),"krate":self.krate(d.def_id()),"args":args,"variants":vs,"box":d.is_box(),"dtor":self.tcx.adt_def(ri::internal(self.tcx, d.def_id())).has_dtor(self.tcx)})
                }
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Array(e, n) => json!({"k":"array","elem":self.ty(e),"len": n.eval_target_usize().ok()}),
                RigidTy::Slice(e) => json!({"k":"slice","elem":self.ty(e)}),
                RigidTy::RawPtr(e, m) => json!({"k":"ptr","to":self.ty(e),"raw":true,"mut": m==Mutability::Mut}),
                RigidTy::Ref(_, e, m) => json!({"k":"ptr","to":self.ty(e),"raw":false,"mut": m==Mutability::Mut}),
                RigidTy::FnDef(d, a) => {
                    let r = Instance::resolve(d, &a).ok().map(|x| self.inst(x));
                    json!({"k":"fndef","path":self.path(d.def_id()),"args":self.args(&a),"inst":r})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(d, a) => {
                    // last generic arg is the tuple of upvar types
                    let up = a.0.last().and_then(|x| x.ty().cloned());
                    let mut fs = vec![];
                    if let Some(u) = up { if let TyKind::RigidTy(RigidTy::Tuple(ts)) = u.kind() { for x in ts { fs.push(self.ty(x)); } } }
                    json!({"k":"closure","path":self.path(d.def_id()),"fields":fs})
                }
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Tuple(ts) => { let v: Vec<usize> = ts.iter().map(|x| self.ty(*x)).collect(); json!({"k":"tuple","fields":v}) }
                RigidTy::Pat(e, _) => json!({"k":"pat","base":self.ty(e)}),
                _ => json!({"k":"other"}),
            },
            _ => json!({"k":"unk"}),
        };
        o["id"] = json!(i);
        o["name"] = json!(name);
        o["layout"] = lay;
        o
    }
    fn alloc_json(&mut self, a: &Allocation) -> J {
        let bytes: Vec<J> = a.bytes.iter().map(|b| match b { Some(x) => json!(x), None => J::Null }).collect();
        let mut p = vec![];
        for (o, pr) in a.provenance.ptrs.iter() { p.push(json!([o, self.alloc(pr.0)])); }
        json!({"b": bytes, "p": p})
    }
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![json!(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["ci", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["d", v.to_index()]),
                ProjectionElem::OpaqueCast(_) => json!(["oc"]),
            });
        }
        J::Array(v)
    }
    fn konst(&mut self, c: &MirConst) -> J {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => { let x = self.alloc_json(a); json!({"ty":t,"a":x}) }
            ConstantKind::ZeroSized => json!({"ty":t,"z":true}),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => { let x = self.alloc_json(a); json!({"ty":t,"a":x}) }
                TyConstKind::ZSTValue(_) => json!({"ty":t,"z":true}),
                k => json!({"ty":t,"bad":format!("{:?}",k)}),
            },
            k => json!({"ty":t,"bad":format!("{:?}",k)}),
        }
    }
    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => json!(["c", self.place(p)]),
            Operand::Move(p) => json!(["m", self.place(p)]),
            Operand::Constant(c) => json!(["k", self.konst(&c.const_)]),
            Operand::RuntimeChecks(r) => json!(["rc", matches!(r, RuntimeChecks::OverflowChecks)]),
        }
    }
    fn opty(&mut self, o: &Operand, l: &[LocalDecl]) -> usize {
        match o.ty(l) { Ok(t) => self.ty(t), Err(_) => self.ty(Ty::bool_ty()) }
    }
    fn line(&self, s: Span) -> J {
        json!(format!("{}:{}", s.get_filename(), s.get_lines().start_line))
    }
    fn rv(&mut self, r: &Rvalue, l: &[LocalDecl]) -> J {
        match r {
            Rvalue::Use(o, _) => json!(["use", self.op(o)]),
            Rvalue::Ref(_, _, p) => { let t = p.ty(l).unwrap(); json!(["ref", self.place(p), self.ty(t)]) }
            Rvalue::AddressOf(_, p) => { let t = p.ty(l).unwrap(); json!(["ref", self.place(p), self.ty(t)]) }
            Rvalue::Reborrow(_, _, p) => json!(["use", ["c", self.place(p)]]),
            Rvalue::CopyForDeref(p) => json!(["use", ["c", self.place(p)]]),
            Rvalue::Aggregate(k, ops) => {
                let ty = r.ty(l).map(|t| self.ty(t)).ok();
                let o: Vec<J> = ops.iter().map(|x| self.op(x)).collect();
                match k {
                    AggregateKind::Array(_) => json!(["agg", "array", 0, o, ty]),
                    AggregateKind::Adt(_, v, _, _, fi) => json!(["agg", "adt", v.to_index(), o, ty, fi]),
                    AggregateKind::RawPtr(..) => json!(["agg", "rawptr", 0, o, ty]),
                    _ => json!(["agg", "tuple", 0, o, ty]),
                }
            }
            Rvalue::BinaryOp(b, x, y) => json!(["bin", format!("{:?}", b), self.op(x), self.op(y), self.opty(x, l), self.opty(y, l)]),
            Rvalue::CheckedBinaryOp(b, x, y) => json!(["cbin", format!("{:?}", b), self.op(x), self.op(y), self.opty(x, l), self.opty(y, l)]),
            Rvalue::UnaryOp(b, x) => json!(["un", format!("{:?}", b), self.op(x), self.opty(x, l)]),
            Rvalue::Cast(k, x, t) => json!(["cast", format!("{:?}", k), self.op(x), self.opty(x, l), self.ty(*t)]),
            Rvalue::Discriminant(p) => { let t = p.ty(l).unwrap(); let dt = r.ty(l).unwrap(); json!(["disc", self.place(p), self.ty(t), self.ty(dt)]) }
            Rvalue::Len(p) => { let t = p.ty(l).unwrap(); json!(["len", self.place(p), self.ty(t)]) }
            Rvalue::Repeat(o, n) => json!(["rep", self.op(o), n.eval_target_usize().ok()]),
            Rvalue::ThreadLocalRef(it) => match rustc_public::mir::mono::StaticDef::try_from(*it) {
                Ok(s) => {
                    let t = self.ty(s.ty());
                    let n = self.path(s.def_id());
                    match s.eval_initializer() { Ok(m) => { let x = self.alloc_json(&m); json!(["tls", n, t, x]) } Err(_) => json!(["tls"]) }
                }
                Err(_) => json!(["tls"]),
            },
        }
    }
    fn callee(&mut self, t: Ty) -> J {
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            let r = Instance::resolve(d, &a).ok().map(|x| self.inst(x));
            json!({"cpath": self.path(d.def_id()), "cargs": self.args(&a), "inst": r})
        } else {
            J::Null
        }
    }
    fn body(&mut self, i: usize) -> J {
        let t = self.insts[i];
        let b = match t.body() { Some(b) => b, None => return J::Null };
        let l = b.locals().to_vec();
        let locals: Vec<usize> = l.iter().map(|d| self.ty(d.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let a = self.place(p); let b = self.rv(r, &l); st.push(json!(["=", a, b])) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let t = place.ty(&l).unwrap(); st.push(json!(["sd", self.place(place), variant_index.to_index(), self.ty(t)])) }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => st.push(json!(["assume", self.op(o)])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => st.push(json!(["cno", self.op(&c.src), self.op(&c.dst), self.op(&c.count)])),
                    StatementKind::StorageDead(l) => st.push(json!(["dead", l])),
                    _ => {}
                }
            }
            let line = self.line(bb.terminator.source_info.span);
            let tm = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<J> = targets.branches().map(|(v, b)| json!([v.to_string(), b])).collect();
                    json!(["sw", self.op(discr), br, targets.otherwise(), self.opty(discr, &l), line])
                }
                TerminatorKind::Resume => json!(["resume"]),
                TerminatorKind::Abort => json!(["abort"]),
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Unreachable => json!(["unr", line]),
                TerminatorKind::Drop { place, target, .. } => { let t = place.ty(&l).unwrap(); json!(["drop", self.place(place), target, self.ty(t)]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&l).unwrap();
                    let c = self.callee(ft);
                    let f = if c.is_null() { self.op(func) } else { J::Null };
                    let a: Vec<J> = args.iter().map(|x| self.op(x)).collect();
                    let at: Vec<usize> = args.iter().map(|x| self.opty(x, &l)).collect();
                    let dt = destination.ty(&l).unwrap();
                    json!(["call", c, f, a, at, self.place(destination), target, self.ty(dt), line])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    json!(["assert", self.op(cond), expected, msg.description().unwrap_or("assert"), target, line])
                }
                TerminatorKind::InlineAsm { .. } => json!(["asm"]),
            };
            blocks.push(json!({"s": st, "t": tm}));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(lc) = v.local() { names.push(json!([lc, v.name.to_string()])); }
        }
        json!({"argc": b.arg_locals().len(), "locals": locals, "blocks": blocks, "spread": b.spread_arg(), "span": self.line(b.span), "names": names})
    }
    fn handle(&mut self, r: &J) -> J {
        match r["op"].as_str().unwrap_or("") {
            "roots" => {
                let mut m = serde_json::Map::new();
                for d in rustc_public::local_crate().fn_defs() {
                    let p = self.path(d.def_id());
                    let did = ri::internal(self.tcx, d.def_id());
                    let g = self.tcx.generics_of(did);
                    if g.requires_monomorphization(self.tcx) { continue; }
                    if let Ok(x) = Instance::resolve(d, &GenericArgs(vec![])) {
                        let id = self.inst(x);
                        m.insert(p, json!(id));
                    }
                }
                J::Object(m)
            }
            "resolve" => {
                let want = r["path"].as_str().unwrap();
                let mut ga = vec![];
                for a in r["args"].as_array().unwrap() {
                    if let Some(n) = a.as_u64() { ga.push(GenericArgKind::Type(self.tys[n as usize])); }
                    else if let Some(n) = a["c"].as_u64() { ga.push(GenericArgKind::Const(TyConst::try_from_target_usize(n).unwrap())); }
                }
                for d in rustc_public::local_crate().fn_defs() {
                    if self.path(d.def_id()) == want {
                        return match Instance::resolve(d, &GenericArgs(ga)) { Ok(x) => json!(self.inst(x)), Err(e) => json!({"err": format!("{:?}", e)}) };
                    }
                }
                json!({"err": "no such fn"})
            }
            "drop" => { let t = self.tys[r["ty"].as_u64().unwrap() as usize]; let x = Instance::resolve_drop_in_place(t); json!(self.inst(x)) }
            "body" => self.body(r["i"].as_u64().unwrap() as usize),
            "ty" => self.ty_info(r["i"].as_u64().unwrap() as usize),
            "tys" => {
                let from = r["from"].as_u64().unwrap() as usize;
                let mut v = vec![];
                let mut i = from;
                let lim = self.tys.len();
                while i < lim { v.push(self.ty_info(i)); i += 1; }
                J::Array(v)
            }
            "alloc" => {
                let a = self.allocs[r["i"].as_u64().unwrap() as usize];
                match GlobalAlloc::from(a) {
                    GlobalAlloc::Memory(m) => { let x = self.alloc_json(&m); json!({"mem": x}) }
                    GlobalAlloc::Function(f) => json!({"fn": self.inst(f)}),
                    GlobalAlloc::Static(s) => {
                        let t = self.ty(s.ty());
                        match s.eval_initializer() { Ok(m) => { let x = self.alloc_json(&m); json!({"mem": x, "ty": t}) } Err(_) => json!({"static": t}) }
                    }
                    GlobalAlloc::VTable(t, tr) => {
                        let mut v = vec![];
                        if let Some(tr) = tr {
                            let tr = tr.skip_binder().with_self_ty(t);
                            for e in tr.vtable_entries() { v.push(match e { VtblEntry::Method(i) => json!(self.inst(i)), _ => J::Null }); }
                        }
                        json!({"vt": self.ty(t), "m": v})
                    }
                    GlobalAlloc::TypeId { ty } => json!({"typeid": self.ty(ty)}),
                }
            }
            "vtable" => {
                // concrete type + dyn type -> method instances
                let c = self.tys[r["ty"].as_u64().unwrap() as usize];
                let d = self.tys[r["dyn"].as_u64().unwrap() as usize];
                let mut v = vec![];
                if let Some(tr) = d.kind().trait_principal() {
                    let tr = tr.skip_binder().with_self_ty(c);
                    for e in tr.vtable_entries() { v.push(match e { VtblEntry::Method(i) => json!(self.inst(i)), _ => J::Null }); }
                }
                J::Array(v)
            }
            "fnitems" => {
                // every fn with a body in crate `krate` (for inventories)
                let want = r["krate"].as_str().unwrap();
                let mut v = vec![];
                for c in rustc_public::find_crates(want) {
                    for d in c.fn_defs() { v.push(json!([self.path(d.def_id()), self.line(d.span())])); }
                }
                J::Array(v)
            }
            "adts" => {
                let want = r["krate"].as_str().unwrap();
                let mut v = vec![];
                for c in rustc_public::find_crates(want) { for d in c.adts() { v.push(json!([self.path(d.def_id()), d.num_variants()])); } }
                J::Array(v)
            }
            "impls" => {
                let want = r["trait"].as_str().unwrap();
                let mut v = vec![];
                for t in rustc_public::all_trait_impls() {
                    let im = t.trait_impl();
                    let tr = im.value;
                    if self.path(tr.def_id.def_id()) == want { let st = tr.self_ty(); let i = self.ty(st); v.push(json!([i, self.line(t.span())])); }
                }
                J::Array(v)
            }
            o => json!({"err": format!("bad op {o}")}),
        }
    }
}

fn serve(tcx: Tcx<'_>) -> CF<(), ()> {
    let path = std::env::var("MIRSERVE_SOCK").unwrap();
    let s = UnixStream::connect(path).unwrap();
    let mut w = s.try_clone().unwrap();
    let rd = BufReader::new(s);
    let mut st = S { tcx, tys: vec![], tyidx: HashMap::new(), insts: vec![], instidx: HashMap::new(), new_insts: vec![], allocs: vec![], allocidx: HashMap::new() };
    for line in rd.lines() {
        let Ok(line) = line else { break };
        let r: J = serde_json::from_str(&line).unwrap();
        if r["op"] == "quit" { break; }
        let res = st.handle(&r);
        let mut infos = vec![];
        while let Some(i) = st.new_insts.pop() { infos.push(st.inst_info(i)); }
        let mut out = serde_json::to_string(&json!({"r": res, "insts": infos})).unwrap();
        out.push('\n');
        if w.write_all(out.as_bytes()).is_err() { break; }
    }
    CF::Break(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: mirserve <rustc> args...
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let is_probe = args.iter().any(|a| a == "-vV" || a.starts_with("--print")) || !args.iter().any(|a| a == "--crate-name");
    let target = std::env::var("MIRSERVE_CRATE").unwrap_or_default();
    let hit = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    if let (true, false, Ok(f)) = (hit, is_probe, std::env::var("MIRSERVE_DUMP")) {
        // record how cargo compiles the spec crate, and stop after its analysis
        let env: Vec<(String, String)> = std::env::vars().filter(|(k, _)| k != "MIRSERVE_DUMP").collect();
        let r = run_with_tcx!(&args, |_tcx| CF::<(), ()>::Break(()));
        let cwd = std::env::current_dir().unwrap();
        match r {
            Ok(()) | Err(rustc_public::CompilerError::Interrupted(())) => {
                std::fs::write(f, serde_json::to_string(&json!({"args": args, "env": env, "cwd": cwd})).unwrap()).unwrap();
                std::process::exit(0)
            }
            _ => std::process::exit(3),
        }
    }
    if is_probe || !hit || std::env::var("MIRSERVE_SOCK").is_err() {
        let st = std::process::Command::new("rustc").args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run_with_tcx!(&args, |tcx| serve(tcx));
    match r {
        Ok(()) | Err(rustc_public::CompilerError::Interrupted(())) => std::process::exit(0),
        _ => std::process::exit(3),
    }
}
