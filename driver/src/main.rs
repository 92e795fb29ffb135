//! Compiler wrapper that dumps the monomorphic MIR reachable from the probe
//! crate as JSON.  Every other crate is compiled unchanged.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump {
    ty_ids: HashMap<Ty, usize>,
    ty_json: Vec<Option<String>>,
    ty_queue: VecDeque<Ty>,
    seen: HashMap<String, ()>,
    queue: VecDeque<(String, Instance)>,
    fns: Vec<(String, String)>,
    vtables: HashMap<String, String>,
    insts: HashMap<String, String>,
    stop: Vec<String>,
    keep: Vec<String>,
    alloc_depth: usize,
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.ty_ids.insert(t, i);
        self.ty_json.push(None);
        self.ty_queue.push_back(t);
        i
    }

    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(js(&match c.eval_target_usize() {
                    Ok(n) => format!("{}", n),
                    Err(_) => format!("{:?}", c.kind()),
                })),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }

    fn flush_types(&mut self) {
        while let Some(t) = self.ty_queue.pop_front() {
            let id = self.ty_ids[&t];
            let j = self.type_json(t);
            self.ty_json[id] = Some(j);
        }
    }

    fn type_json(&mut self, t: Ty) -> String {
        let k = t.kind();
        let r = match k.rigid() {
            Some(r) => r.clone(),
            None => return format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", k))),
        };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":true}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":false}}", i.num_bytes() * 8),
            RigidTy::Float(f) => format!("{{\"k\":\"float\",\"name\":{}}}", js(&format!("{:?}", f))),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                format!("{{\"k\":\"array\",\"elem\":{},\"len\":{}}}", e, n.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
            }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"elem\":{}}}", self.ty(e)),
            RigidTy::RawPtr(e, _) => format!("{{\"k\":\"ptr\",\"to\":{}}}", self.ty(e)),
            RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"to\":{},\"mut\":{}}}", self.ty(e), m == Mutability::Mut),
            RigidTy::FnDef(d, a) => {
                let inst = match Instance::resolve_for_fn_ptr(d, &a) {
                    Ok(i) => self.inst(i),
                    Err(_) => "null".into(),
                };
                format!("{{\"k\":\"fndef\",\"name\":{},\"inst\":{}}}", js(&d.name()), inst)
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::Closure(d, a) => {
                let mut inst: Vec<String> = vec![];
                for kind in [ClosureKind::FnOnce, ClosureKind::FnMut, ClosureKind::Fn] {
                    inst.push(match Instance::resolve_closure(d, &a, kind) {
                        Ok(i) => self.inst(i),
                        Err(_) => "null".into(),
                    });
                }
                let ups = match a.0.last() {
                    Some(GenericArgKind::Type(t)) => format!("{}", self.ty(*t)),
                    _ => "null".into(),
                };
                format!("{{\"k\":\"closure\",\"name\":{},\"upvars\":{},\"insts\":{}}}", js(&d.name()), ups, arr(inst))
            }
            RigidTy::Tuple(v) => {
                let v: Vec<String> = v.into_iter().map(|t| format!("{}", self.ty(t))).collect();
                format!("{{\"k\":\"tuple\",\"elems\":{}}}", arr(v))
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"name\":{}}}", js(&format!("{}", t))),
            RigidTy::Adt(d, a) => {
                let kind = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        fs.push(format!("[{},{}]", js(&f.name), self.ty(ft)));
                    }
                    let discr = if kind == "enum" { format!("{}", d.discriminant_for_variant(v.idx()).val) } else { "0".into() };
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", js(&v.name()), discr, arr(fs)));
                }
                let ga = self.gargs(&a);
                format!(
                    "{{\"k\":\"adt\",\"name\":{},\"crate\":{},\"kind\":\"{}\",\"box\":{},\"args\":{},\"variants\":{}}}",
                    js(&d.name()), js(&d.krate().name), kind, d.is_box(), ga, arr(vs)
                )
            }
            x => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", x))),
        }
    }

    /// key of an instance; queues its body
    fn inst(&mut self, i: Instance) -> String {
        let path = i.def.name();
        let key = match i.kind {
            InstanceKind::Virtual { idx } => format!("virtual#{}#{}", idx, path),
            InstanceKind::Intrinsic => format!("intrinsic#{}", i.name()),
            InstanceKind::Shim => format!("shim#{}#{}", i.mangled_name(), i.ty()),
            _ => i.mangled_name(),
        };
        let k = js(&key);
        if !self.seen.contains_key(&key) {
            self.seen.insert(key.clone(), ());
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let idx = match i.kind {
                InstanceKind::Virtual { idx } => idx as i64,
                _ => -1,
            };
            let args = i.args();
            let ga = self.gargs(&args);
            let ik = i.ty().kind();
            let closure = ik.is_closure() && i.kind == InstanceKind::Item;
            let krate = i.def.krate().name;
            let sig = match (ik.fn_sig(), closure) {
                (Some(s), false) => {
                    let s = s.skip_binder();
                    let ins: Vec<String> = s.inputs().iter().map(|t| format!("{}", self.ty(*t))).collect();
                    format!("{{\"in\":{},\"out\":{}}}", arr(ins), self.ty(s.output()))
                }
                _ => "null".into(),
            };
            let j = format!(
                "{{\"path\":{},\"name\":{},\"crate\":{},\"kind\":\"{}\",\"vidx\":{},\"args\":{},\"closure\":{},\"sig\":{}}}",
                js(&path), js(&i.name()), js(&krate), kind, idx, ga, closure, sig
            );
            self.insts.insert(key.clone(), j);
            self.queue.push_back((key, i));
        }
        k
    }

    fn stopped(&self, i: &Instance) -> bool {
        let p = i.def.name();
        let kr = i.def.krate().name;
        if kr == "kicad_parse_gen" || kr == "symbolic_expressions" || kr == "probe" {
            return false;
        }
        let n = i.name();
        let mut best: (usize, bool) = (0, false);
        for s in &self.stop {
            if (p.starts_with(s.as_str()) || n.starts_with(s.as_str())) && s.len() > best.0 {
                best = (s.len(), true);
            }
        }
        for s in &self.keep {
            if (p.starts_with(s.as_str()) || n.starts_with(s.as_str())) && s.len() > best.0 {
                best = (s.len(), false);
            }
        }
        best.1
    }

    fn read_ptr(&self, a: &Allocation, off: usize) -> Option<(rustc_public::mir::alloc::AllocId, u64)> {
        let val = a.read_partial_uint(off..off + 8).ok()? as u64;
        for (o, p) in &a.provenance.ptrs {
            if *o == off {
                return Some((p.0, val));
            }
        }
        None
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty) -> String {
        if self.alloc_depth > 12 {
            return "{\"c\":\"opaque\"}".into();
        }
        self.alloc_depth += 1;
        let r = self.decode2(a, off, t).unwrap_or_else(|| "{\"c\":\"opaque\"}".into());
        self.alloc_depth -= 1;
        r
    }

    /// whether a value of this type holds a cell that can be written through a shared reference
    fn has_cell(&self, t: Ty, depth: usize) -> bool {
        if depth > 8 {
            return true;
        }
        match t.kind().rigid() {
            Some(RigidTy::Adt(d, a)) => {
                if d.name().ends_with("cell::UnsafeCell") {
                    return true;
                }
                d.variants().iter().any(|v| v.fields().iter().any(|f| self.has_cell(f.ty_with_args(a), depth + 1)))
            }
            Some(RigidTy::Array(e, _)) | Some(RigidTy::Slice(e)) => self.has_cell(*e, depth + 1),
            Some(RigidTy::Tuple(ts)) => ts.iter().any(|x| self.has_cell(*x, depth + 1)),
            _ => false,
        }
    }

    fn decode_pointee(&mut self, a: &Allocation, off: usize, pointee: Ty, writable: bool) -> Option<String> {
        let (id, base) = match self.read_ptr(a, off) {
            Some(x) => x,
            None => return Some("{\"c\":\"dangling\"}".into()),
        };
        let mem = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(s) => {
                // a static that can change is not the value it starts with
                if writable || self.has_cell(s.ty(), 0) {
                    return Some(format!("{{\"c\":\"opaque\",\"static\":{}}}", js(&s.name())));
                }
                s.eval_initializer().ok()?
            }
            GlobalAlloc::Function(i) => {
                let k = self.inst(i);
                return Some(format!("{{\"c\":\"fn\",\"inst\":{}}}", k));
            }
            _ => return None,
        };
        let base = base as usize;
        match pointee.kind().rigid()? {
            RigidTy::Str => {
                let len = a.read_partial_uint(off + 8..off + 16).ok()? as usize;
                let b = mem.raw_bytes_range(base, len)?;
                let s = String::from_utf8_lossy(&b).into_owned();
                Some(format!("{{\"c\":\"str\",\"v\":{}}}", js(&s)))
            }
            RigidTy::Slice(e) => {
                let len = a.read_partial_uint(off + 8..off + 16).ok()? as usize;
                let sz = e.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..len {
                    v.push(self.decode(&mem, base + i * sz, *e));
                }
                Some(format!("{{\"c\":\"ref\",\"to\":{{\"c\":\"array\",\"v\":{}}}}}", arr(v)))
            }
            RigidTy::Dynamic(..) => None,
            _ => {
                let d = self.decode(&mem, base, pointee);
                Some(format!("{{\"c\":\"ref\",\"to\":{}}}", d))
            }
        }
    }

    fn decode2(&mut self, a: &Allocation, off: usize, t: Ty) -> Option<String> {
        let k = t.kind();
        let r = k.rigid()?.clone();
        let sh = t.layout().ok()?.shape();
        let sz = sh.size.bytes();
        Some(match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Float(_) => {
                let v = a.read_partial_uint(off..off + sz).ok()?;
                format!("{{\"c\":\"bits\",\"v\":\"{}\",\"size\":{}}}", v, sz)
            }
            RigidTy::Int(_) => {
                let v = a.read_partial_uint(off..off + sz).ok()?;
                let sft = 128 - sz * 8;
                let v = ((v as i128) << sft) >> sft;
                format!("{{\"c\":\"bits\",\"v\":\"{}\",\"size\":{}}}", v, sz)
            }
            RigidTy::Ref(_, p, _) => self.decode_pointee(a, off, p, false)?,
            RigidTy::RawPtr(p, m) => self.decode_pointee(a, off, p, m == Mutability::Mut)?,
            RigidTy::FnPtr(_) => {
                let (id, _) = self.read_ptr(a, off)?;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Function(i) => {
                        let k = self.inst(i);
                        format!("{{\"c\":\"fn\",\"inst\":{}}}", k)
                    }
                    _ => return None,
                }
            }
            RigidTy::FnDef(..) => "{\"c\":\"zst\"}".into(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let es = e.layout().ok()?.shape().size.bytes();
                if let RigidTy::Uint(UintTy::U8) = e.kind().rigid()? {
                    let b = a.raw_bytes_range(off, n)?;
                    return Some(format!("{{\"c\":\"bytes\",\"v\":{}}}", arr(b.iter().map(|x| format!("{}", x)))));
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(a, off + i * es, e));
                }
                format!("{{\"c\":\"array\",\"v\":{}}}", arr(v))
            }
            RigidTy::Tuple(ts) => {
                let offs = match &sh.fields {
                    FieldsShape::Arbitrary { offsets } => offsets.clone(),
                    _ => vec![],
                };
                if ts.is_empty() {
                    return Some("{\"c\":\"zst\"}".into());
                }
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    let o = offs.get(i).map(|x| x.bytes()).unwrap_or(0);
                    v.push(self.decode(a, off + o, *t));
                }
                format!("{{\"c\":\"adt\",\"variant\":0,\"v\":{}}}", arr(v))
            }
            RigidTy::Adt(d, ga) => {
                if d.kind() == AdtKind::Union {
                    return None;
                }
                let (vi, offs) = match &sh.variants {
                    VariantsShape::Empty => return None,
                    VariantsShape::Single { index } => {
                        let offs = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.clone(),
                            _ => vec![],
                        };
                        (*index, offs)
                    }
                    VariantsShape::Multiple { tag: _, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let tsz = match &sh.variants {
                            VariantsShape::Multiple { tag, .. } => match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => {
                                    value.size(&rustc_public::target::MachineInfo::target()).bytes()
                                }
                            },
                            _ => 1,
                        };
                        let is_ptr_tag = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let tv = a.read_partial_uint(off + toff..off + toff + tsz).ok()?;
                        let mask: u128 = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                        let mut found = None;
                        match tag_encoding {
                            TagEncoding::Direct => {
                                for (i, _) in variants.iter().enumerate() {
                                    let dv = d.discriminant_for_variant(VariantIdx::to_val(i)).val;
                                    if dv & mask == tv {
                                        found = Some(i);
                                    }
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let st = niche_variants.start().to_index();
                                let en = niche_variants.end().to_index();
                                let mut fi = untagged_variant.to_index();
                                if !is_ptr_tag {
                                    for i in st..=en {
                                        let enc = ((i - st) as u128).wrapping_add(*niche_start) & mask;
                                        if enc == tv {
                                            fi = i;
                                        }
                                    }
                                }
                                found = Some(fi);
                            }
                        }
                        let vi = found?;
                        (VariantIdx::to_val(vi), variants[vi].offsets.clone())
                    }
                };
                let var = d.variant(vi)?;
                let mut v = vec![];
                for (i, f) in var.fields().into_iter().enumerate() {
                    let ft = f.ty_with_args(&ga);
                    let o = offs.get(i).map(|x| x.bytes()).unwrap_or(0);
                    v.push(self.decode(a, off + o, ft));
                }
                format!("{{\"c\":\"adt\",\"variant\":{},\"v\":{}}}", vi.to_index(), arr(v))
            }
            _ => {
                if sz == 0 {
                    "{\"c\":\"zst\"}".into()
                } else {
                    return None;
                }
            }
        })
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let body = match c.kind() {
            ConstantKind::Allocated(a) => {
                self.alloc_depth = 0;
                self.decode(a, 0, t)
            }
            ConstantKind::ZeroSized => "{\"c\":\"zst\"}".into(),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"c\":\"bits\",\"v\":\"{}\",\"size\":8}}", n),
                Err(_) => "{\"c\":\"opaque\"}".into(),
            },
            _ => "{\"c\":\"opaque\"}".into(),
        };
        format!("[\"const\",{},{}]", ti, body)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"field\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"downcast\",{}]", v.to_index()),
                _ => "[\"cast\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            _ => "[\"rtchecks\"]".into(),
        }
    }

    fn operands(&mut self, o: &[Operand]) -> String {
        let v: Vec<String> = o.iter().map(|x| self.operand(x)).collect();
        arr(v)
    }

    fn vtable(&mut self, src: Ty, dst: Ty) {
        // find the pointee pair (T, dyn Trait) through refs, boxes and raw pointers
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind().rigid()? {
                RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => Some(*p),
                RigidTy::Adt(_, a) => match a.0.get(0) {
                    Some(GenericArgKind::Type(t)) => Some(*t),
                    _ => None,
                },
                _ => None,
            }
        }
        let (s, d) = match (pointee(src), pointee(dst)) {
            (Some(s), Some(d)) => (s, d),
            _ => return,
        };
        if let Some(RigidTy::Dynamic(..)) = s.kind().rigid() {
            return;
        }
        let pr = match d.kind().trait_principal() {
            Some(p) => p,
            None => return,
        };
        let si = self.ty(s);
        let di = self.ty(d);
        let key = format!("{}:{}", si, di);
        if self.vtables.contains_key(&key) {
            return;
        }
        self.vtables.insert(key.clone(), "[]".into());
        let tr = pr.skip_binder().with_self_ty(s);
        let mut v = vec![];
        for e in tr.vtable_entries() {
            v.push(match e {
                VtblEntry::Method(i) => self.inst(i),
                _ => "null".into(),
            });
        }
        self.vtables.insert(key, arr(v));
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => {
                let t = p.ty(locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"ref\",{},true,{}]", self.place(p), t)
            }
            Rvalue::Ref(_, k, p) => {
                let t = p.ty(locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"ref\",{},{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. }), t)
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Aggregate(k, ops) => {
                let o = self.operands(ops);
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, uf) => {
                        let t = d.ty_with_args(a);
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), uf.map(|x| x as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, o)
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(locals).ok();
                if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Some(s)) = (k, st) {
                    self.vtable(s, *t);
                }
                let sti = st.map(|t| self.ty(t) as i64).unwrap_or(-1);
                let kn = match k {
                    CastKind::PointerCoercion(c) => format!("{:?}", c).split('(').next().unwrap().to_string(),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{},{}]", js(&kn), self.operand(o), self.ty(*t), sti)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(o), t)
            }
        }
    }

    fn assert_msg(&mut self, m: &AssertMessage) -> String {
        match m {
            AssertMessage::BoundsCheck { len, index } => {
                format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index))
            }
            AssertMessage::Overflow(op, a, b) => format!("[\"overflow\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            AssertMessage::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.operand(a)),
            AssertMessage::DivisionByZero(_) => "[\"divzero\"]".into(),
            AssertMessage::RemainderByZero(_) => "[\"remzero\"]".into(),
            _ => "[\"other\"]".into(),
        }
    }

    fn body(&mut self, i: &Instance, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let mut o = String::new();
        let file = b.span.get_filename();
        let _ = write!(o, "{{\"file\":{},\"line\":{},\"argc\":{},", js(&file), b.span.get_lines().start_line, b.arg_locals().len());
        let _ = write!(o, "\"spread\":{},", b.spread_arg().map(|x| x as i64).unwrap_or(-1));
        let lt: Vec<String> = locals.iter().map(|l| format!("{}", self.ty(l.ty))).collect();
        let _ = write!(o, "\"locals\":{},", arr(lt));
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", js(&v.name), self.place(p)));
            }
        }
        let _ = write!(o, "\"vars\":{},", arr(names));
        o.push_str("\"blocks\":[");
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                let j = match &s.kind {
                    StatementKind::Assign(p, r) => Some(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, &locals), line)),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!("[\"setdiscr\",{},{},{}]", self.place(place), variant_index.to_index(), line))
                    }
                    StatementKind::Intrinsic(ni) => Some(format!("[\"intr\",{},{}]", js(&format!("{:?}", ni)), line)),
                    StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l)),
                    _ => None,
                };
                if let Some(j) = j {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&j);
                }
            }
            o.push_str("],\"t\":");
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let tfile = bb.terminator.source_info.span.get_filename();
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let br: Vec<String> = targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b)).collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), arr(br), targets.otherwise(), dt)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let callee = match func {
                        Operand::Constant(c) => {
                            let t = c.ty();
                            let ti = self.ty(t);
                            match t.kind().rigid() {
                                Some(RigidTy::FnDef(d, a)) => {
                                    let inst = match Instance::resolve(*d, a) {
                                        Ok(i) => self.inst(i),
                                        Err(_) => "null".into(),
                                    };
                                    let ga = self.gargs(a);
                                    format!("[\"fn\",{},{},{},{}]", inst, js(&d.name()), ga, ti)
                                }
                                _ => format!("[\"op\",{}]", self.operand(func)),
                            }
                        }
                        _ => format!("[\"op\",{}]", self.operand(func)),
                    };
                    let aty: Vec<String> = args.iter().map(|a| a.ty(&locals).ok().map(|t| format!("{}", self.ty(t))).unwrap_or("-1".into())).collect();
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        callee,
                        self.operands(args),
                        self.place(destination),
                        target.map(|x| x as i64).unwrap_or(-1),
                        line,
                        js(&tfile),
                        arr(aty)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, self.assert_msg(msg), target, line)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            o.push_str(&t);
            o.push('}');
        }
        o.push_str("]}");
        let _ = i;
        o
    }
}

trait RawRange {
    fn raw_bytes_range(&self, off: usize, len: usize) -> Option<Vec<u8>>;
}
impl RawRange for Allocation {
    fn raw_bytes_range(&self, off: usize, len: usize) -> Option<Vec<u8>> {
        let s = self.bytes.get(off..off + len)?;
        s.iter().copied().collect::<Option<Vec<u8>>>()
    }
}

trait Idx {
    fn to_val(i: usize) -> VariantIdx;
}
impl Idx for VariantIdx {
    fn to_val(i: usize) -> VariantIdx {
        <VariantIdx as rustc_public_bridge::IndexedVal>::to_val(i)
    }
}
trait Idx2 {
    fn to_index(&self) -> usize;
}
impl Idx2 for VariantIdx {
    fn to_index(&self) -> usize {
        rustc_public_bridge::IndexedVal::to_index(self)
    }
}

fn lines_of(var: &str) -> Vec<String> {
    match std::env::var(var) {
        Ok(p) => std::fs::read_to_string(p)
            .unwrap_or_default()
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .collect(),
        Err(_) => vec![],
    }
}

fn analyse() -> ControlFlow<()> {
    let out = match std::env::var("MIRDUMP_OUT") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let rules = lines_of("MIRDUMP_RULES");
    let mut d = Dump {
        ty_ids: HashMap::new(),
        ty_json: vec![],
        ty_queue: VecDeque::new(),
        seen: HashMap::new(),
        queue: VecDeque::new(),
        fns: vec![],
        vtables: HashMap::new(),
        insts: HashMap::new(),
        stop: rules.iter().filter_map(|l| l.strip_prefix('-').map(|x| x.to_string())).collect(),
        keep: rules.iter().filter_map(|l| l.strip_prefix('+').map(|x| x.to_string())).collect(),
        alloc_depth: 0,
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if let Ok(i) = Instance::try_from(item) {
            let k = d.inst(i);
            roots.push(format!("[{},{}]", js(&item.name()), k));
        }
    }
    let mut defs = vec![];
    let mut lib_adts = vec![];
    for c in rustc_public::find_crates("kicad_parse_gen") {
        let mut have: HashSet<String> = HashSet::new();
        let mut all: Vec<FnDef> = c.fn_defs();
        for im in c.trait_impls() {
            for it in im.associated_items() {
                if let rustc_public::ty::AssocKind::Fn { .. } = it.kind {
                    let did = it.def_id.def_id();
                    let t = ();
                    let _ = (did, t);
                }
            }
        }
        all.sort_by_key(|f| f.name());
        for f in all {
            if !have.insert(f.name()) {
                continue;
            }
            let n = f.name();
            let gens = f.generics_of();
            let generic = gens.params.iter().any(|p| !matches!(p.kind, rustc_public::ty::GenericParamDefKind::Lifetime)) || gens.parent_count > 0;
            let mut key = "null".to_string();
            if !generic && f.has_body() {
                let erased: Vec<GenericArgKind> = gens
                    .params
                    .iter()
                    .map(|_| GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }))
                    .collect();
                if let Ok(i) = Instance::resolve(f, &GenericArgs(erased)) {
                    key = d.inst(i);
                }
            }
            let sp = f.span();
            defs.push(format!("[{},{},{},{}]", js(&n), key, js(&sp.get_filename()), sp.get_lines().start_line));
        }
        for a in c.adts() {
            lib_adts.push(js(&a.name()));
        }
    }
    let mut nstop = 0usize;
    loop {
        d.flush_types();
        let (key, i) = match d.queue.pop_front() {
            Some(x) => x,
            None => {
                if d.ty_queue.is_empty() {
                    break;
                }
                continue;
            }
        };
        if matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) {
            continue;
        }
        if d.stopped(&i) {
            nstop += 1;
            continue;
        }
        if i.kind == InstanceKind::Item && !i.has_body() {
            continue;
        }
        let dpath = i.def.name();
        if i.kind == InstanceKind::Shim && dpath.contains("drop_in_place") {
            continue;
        }
        let b = match i.body() {
            Some(b) => b,
            None => continue,
        };
        let j = d.body(&i, &b);
        d.fns.push((key, j));
    }
    let mut o = String::new();
    o.push_str("{\"types\":[");
    for (i, t) in d.ty_json.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        o.push_str(t.as_ref().unwrap());
    }
    o.push_str("],\n\"insts\":{");
    for (i, (k, v)) in d.insts.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        o.push_str(&js(k));
        o.push(':');
        o.push_str(v);
    }
    o.push_str("},\n\"fns\":{");
    for (i, (k, v)) in d.fns.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        o.push_str(&js(k));
        o.push(':');
        o.push_str(v);
    }
    o.push_str("},\n\"vtables\":{");
    for (i, (k, v)) in d.vtables.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        o.push_str(&js(k));
        o.push(':');
        o.push_str(v);
    }
    let _ = write!(o, "}},\n\"roots\":{},\n\"defs\":{},\n\"adts\":{}}}\n", arr(roots), arr(defs), arr(lib_adts));
    std::fs::write(&out, o).expect("write dump");
    eprintln!("mirdump: {} bodies, {} types, {} stopped", d.fns.len(), d.ty_json.len(), nstop);
    ControlFlow::Continue(())
}

fn main() {
    // invoked by cargo as `mirdump <rustc> <args>`
    let mut args: Vec<String> = std::env::args().collect();
    let is_probe = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "probe");
    if !is_probe {
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.remove(1);
    let r: Result<(), _> = run!(&args, analyse);
    if let Err(e) = r {
        match e {
            rustc_public::CompilerError::Interrupted(_) | rustc_public::CompilerError::Skipped => {}
            _ => std::process::exit(1),
        }
    }
}
