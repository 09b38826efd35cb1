//! MIR extraction driver.
//!
//! Acts as RUSTC_WORKSPACE_WRAPPER.  For every crate except the one named by
//! MIRDUMP_CRATE it behaves exactly as rustc.  For that crate it walks all
//! monomorphic instances reachable from the crate's own functions plus every
//! non-generic function of the crate under analysis and writes the type-checked,
//! monomorphised MIR as JSON (no code is executed).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<T: AsRef<str>>(v: impl IntoIterator<Item = T>) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(x.as_ref());
    }
    o.push(']');
    o
}

struct Dumper {
    types: Vec<String>,
    type_ix: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    inst_ix: HashMap<Instance, usize>,
    queue: VecDeque<usize>,
    stop: Vec<String>,
    bodies: BTreeMap<usize, String>,
    statics: BTreeMap<String, String>,
    static_seen: HashSet<String>,
}

fn strip_generics(s: &str) -> String {
    // remove `::<...>` groups only (turbofish), keeping `<impl ..>` heads
    let b: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' {
            let mut d = 0;
            let mut j = i + 2;
            while j < b.len() {
                if b[j] == '<' {
                    d += 1;
                } else if b[j] == '>' && b[j - 1] != '-' {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                j += 1;
            }
            i = j + 1;
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

impl Dumper {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.type_ix.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.type_ix.insert(t, i);
        let s = self.ty_json(t);
        self.types[i] = s;
        i
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = Vec::new();
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"const\":{}}}", n),
                    Err(_) => "{\"const\":null}".to_string(),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let s = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"n\":{}", esc(&format!("{:?}", f))),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(*e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(*e), matches!(m, Mutability::Mut)),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(*e), matches!(m, Mutability::Mut)),
                RigidTy::Tuple(v) => {
                    let v: Vec<String> = v.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!("\"k\":\"tuple\",\"elems\":{}", arr(v))
                }
                RigidTy::Adt(d, a) => {
                    let name = d.name();
                    let args = self.args(a);
                    let kind = if d.kind().is_enum() { "enum" } else if d.kind().is_union() { "union" } else { "struct" };
                    let mut vs = Vec::new();
                    for (vi, v) in d.variants().into_iter().enumerate() {
                        let mut fs = Vec::new();
                        for f in v.fields() {
                            let ft = f.ty_with_args(a);
                            fs.push(format!("[{},{}]", esc(&f.name), self.ty(ft)));
                        }
                        let discr = if d.kind().is_enum() {
                            d.discriminant_for_variant(rustc_public::ty::VariantIdx::to_val(vi)).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(&v.name()), discr, arr(fs)));
                    }
                    format!(
                        "\"k\":\"adt\",\"name\":{},\"crate\":{},\"args\":{},\"kind\":\"{}\",\"box\":{},\"variants\":{}",
                        esc(&name), esc(&d.krate().name), args, kind, d.is_box(), arr(vs)
                    )
                }
                RigidTy::FnDef(d, a) => {
                    let args = self.args(a);
                    let inst = match Instance::resolve_for_fn_ptr(*d, a).or_else(|_| Instance::resolve(*d, a)) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{}", esc(&d.name()), args, inst)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    // natural kind: closure args end with [kind_ty, sig, upvar_tuple]
                    let n = a.0.len();
                    let mut kind = ClosureKind::FnOnce;
                    if n >= 3 {
                        if let GenericArgKind::Type(kt) = &a.0[n - 3] {
                            if let TyKind::RigidTy(RigidTy::Int(i)) = kt.kind() {
                                kind = match i.num_bytes() {
                                    1 => ClosureKind::Fn,
                                    2 => ClosureKind::FnMut,
                                    _ => ClosureKind::FnOnce,
                                };
                            }
                        }
                    }
                    let up = if n >= 1 {
                        if let GenericArgKind::Type(ut) = &a.0[n - 1] { self.ty(*ut).to_string() } else { "null".into() }
                    } else { "null".into() };
                    let inst = match Instance::resolve_closure(*d, a, kind.clone()) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"closure\",\"name\":{},\"ck\":{},\"upvars\":{},\"inst\":{}", esc(&d.name()), esc(&format!("{:?}", kind)), up, inst)
                }
                RigidTy::Dynamic(..) => format!("\"k\":\"dyn\",\"n\":{}", esc(&format!("{}", t))),
                _ => format!("\"k\":\"other\",\"n\":{}", esc(&format!("{}", t))),
            },
            _ => format!("\"k\":\"other\",\"n\":{}", esc(&format!("{}", t))),
        };
        format!("{{{},\"s\":{}}}", s, esc(&format!("{}", t)))
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ix.get(&i) {
            return *x;
        }
        let x = self.insts.len();
        self.insts.push(i);
        self.inst_ix.insert(i, x);
        self.queue.push_back(x);
        x
    }
    fn span(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }

    // ---- constants -------------------------------------------------------
    fn read_uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for k in 0..n {
            let b = a.bytes.get(off + k)?;
            let b = (*b)?;
            v |= (b as u128) << (8 * k);
        }
        Some(v)
    }
    fn prov(a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        for (o, p) in &a.provenance.ptrs {
            if *o == off {
                return Some(GlobalAlloc::from(p.0));
            }
        }
        None
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 40 {
            return "{\"unk\":\"depth\"}".into();
        }
        let unk = |w: &str| format!("{{\"unk\":{}}}", esc(w));
        let kind = t.kind();
        let r = match &kind {
            TyKind::RigidTy(r) => r,
            _ => return unk("nonrigid"),
        };
        match r {
            RigidTy::Bool => match Self::read_uint(a, off, 1) { Some(v) => format!("{{\"bool\":{}}}", v != 0), None => unk("undef") },
            RigidTy::Char => match Self::read_uint(a, off, 4) { Some(v) => format!("{{\"int\":\"{}\"}}", v), None => unk("undef") },
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                match Self::read_uint(a, off, n) {
                    Some(v) => {
                        let sh = 128 - 8 * n as u32;
                        let s = ((v << sh) as i128) >> sh;
                        format!("{{\"int\":\"{}\"}}", s)
                    }
                    None => unk("undef"),
                }
            }
            RigidTy::Uint(i) => match Self::read_uint(a, off, i.num_bytes()) {
                Some(v) => format!("{{\"int\":\"{}\"}}", v),
                None => unk("undef"),
            },
            RigidTy::Float(FloatTy::F64) => match Self::read_uint(a, off, 8) {
                Some(v) => format!("{{\"f64\":\"{:016x}\"}}", v as u64),
                None => unk("undef"),
            },
            RigidTy::Float(FloatTy::F32) => match Self::read_uint(a, off, 4) {
                Some(v) => format!("{{\"f32\":\"{:08x}\"}}", v as u32),
                None => unk("undef"),
            },
            RigidTy::Tuple(v) if v.is_empty() => "{\"tuple\":[]}".into(),
            RigidTy::Never => unk("never"),
            RigidTy::FnDef(..) => format!("{{\"fn\":{}}}", self.ty(t)),
            RigidTy::Closure(..) => format!("{{\"zst\":{}}}", self.ty(t)),
            RigidTy::FnPtr(_) => match Self::prov(a, off) {
                Some(GlobalAlloc::Function(i)) => format!("{{\"fnptr\":{}}}", self.inst(i)),
                _ => unk("fnptr"),
            },
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let to = *to;
                let addr = Self::read_uint(a, off, 8).unwrap_or(0) as usize;
                match Self::prov(a, off) {
                    Some(GlobalAlloc::Memory(m)) => {
                        let tk = to.kind();
                        match tk.rigid() {
                            Some(RigidTy::Str) => {
                                let len = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                                let bytes: Vec<u8> = (0..len).map(|k| m.bytes[addr + k].unwrap_or(0)).collect();
                                match String::from_utf8(bytes.clone()) {
                                    Ok(s) => format!("{{\"ref\":{{\"str\":{}}}}}", esc(&s)),
                                    Err(_) => unk("nonutf8"),
                                }
                            }
                            Some(RigidTy::Slice(e)) => {
                                let e = *e;
                                let len = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                let v: Vec<String> = (0..len).map(|k| self.decode(e, &m, addr + k * sz, depth + 1)).collect();
                                format!("{{\"ref\":{{\"array\":{}}}}}", arr(v))
                            }
                            _ => format!("{{\"ref\":{}}}", self.decode(to, &m, addr, depth + 1)),
                        }
                    }
                    Some(GlobalAlloc::Static(sd)) => {
                        let n = sd.name();
                        self.do_static(sd);
                        format!("{{\"static\":{}}}", esc(&n))
                    }
                    Some(GlobalAlloc::Function(i)) => format!("{{\"fnptr\":{}}}", self.inst(i)),
                    Some(_) => unk("alloc"),
                    None => {
                        let lay = to.layout().ok().map(|l| l.shape());
                        if let Some(l) = lay {
                            if l.size.bytes() == 0 && l.is_sized() {
                                return format!("{{\"ref\":{}}}", self.decode(to, a, off, depth + 1));
                            }
                        }
                        if let Some(RigidTy::Slice(_)) = to.kind().rigid() {
                            let len = Self::read_uint(a, off + 8, 8).unwrap_or(1);
                            if len == 0 {
                                return "{\"ref\":{\"array\":[]}}".into();
                            }
                        }
                        if let Some(RigidTy::Str) = to.kind().rigid() {
                            return "{\"ref\":{\"str\":\"\"}}".into();
                        }
                        format!("{{\"rawaddr\":\"{}\"}}", addr)
                    }
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 100000 {
                    return unk("bigarray");
                }
                let v: Vec<String> = (0..n).map(|k| self.decode(*e, a, off + k * sz, depth + 1)).collect();
                format!("{{\"array\":{}}}", arr(v))
            }
            RigidTy::Tuple(v) => {
                let l = match t.layout() { Ok(l) => l.shape(), Err(_) => return unk("layout") };
                if let FieldsShape::Arbitrary { offsets } = &l.fields {
                    let o: Vec<String> = v.iter().enumerate().map(|(k, ft)| self.decode(*ft, a, off + offsets[k].bytes(), depth + 1)).collect();
                    format!("{{\"tuple\":{}}}", arr(o))
                } else {
                    unk("tuplelayout")
                }
            }
            RigidTy::Adt(d, args) => {
                let tix = self.ty(t);
                let l = match t.layout() { Ok(l) => l.shape(), Err(_) => return unk("layout") };
                if d.kind().is_union() {
                    return unk("union");
                }
                match &l.variants {
                    VariantsShape::Single { index } => {
                        let v = d.variant(*index);
                        let v = match v { Some(v) => v, None => return unk("variant") };
                        if let FieldsShape::Arbitrary { offsets } = &l.fields {
                            let fs = v.fields();
                            let o: Vec<String> = fs.iter().enumerate().map(|(k, f)| { let ft = f.ty_with_args(args); self.decode(ft, a, off + offsets[k].bytes(), depth + 1) }).collect();
                            format!("{{\"adt\":{},\"v\":{},\"f\":{}}}", tix, index.to_index(), arr(o))
                        } else if v.fields().is_empty() {
                            format!("{{\"adt\":{},\"v\":{},\"f\":[]}}", tix, index.to_index())
                        } else {
                            unk("adtlayout")
                        }
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = if let FieldsShape::Arbitrary { offsets } = &l.fields { offsets[*tag_field].bytes() } else { return unk("taglayout") };
                        let mi = rustc_public::target::MachineInfo::target();
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => value.size(&mi).bytes(),
                            rustc_public::abi::Scalar::Union { value } => value.size(&mi).bytes(),
                        };
                        let hasprov = Self::prov(a, off + toff).is_some();
                        let tagv = match Self::read_uint(a, off + toff, tsz) { Some(v) => v, None => return unk("tagundef") };
                        let vi: usize = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut found = None;
                                for k in 0..d.num_variants() {
                                    let dv = d.discriminant_for_variant(rustc_public::ty::VariantIdx::to_val(k)).val;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    if dv & mask == tagv { found = Some(k); }
                                }
                                match found { Some(k) => k, None => return unk("tag") }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                let s = niche_variants.start().to_index() as u128;
                                let e = niche_variants.end().to_index() as u128;
                                let rel = tagv.wrapping_sub(*niche_start) & mask;
                                if !hasprov && rel <= e - s { (s + rel) as usize } else { untagged_variant.to_index() }
                            }
                        };
                        let v = d.variant(rustc_public::ty::VariantIdx::to_val(vi)).unwrap();
                        let offs = &variants[vi].offsets;
                        let fs = v.fields();
                        let o: Vec<String> = fs.iter().enumerate().map(|(k, f)| { let ft = f.ty_with_args(args); self.decode(ft, a, off + offs[k].bytes(), depth + 1) }).collect();
                        format!("{{\"adt\":{},\"v\":{},\"f\":{}}}", tix, vi, arr(o))
                    }
                    VariantsShape::Empty => unk("empty"),
                }
            }
            _ => unk(&format!("{}", t)),
        }
    }
    fn do_static(&mut self, sd: rustc_public::mir::mono::StaticDef) {
        let n = sd.name();
        if !self.static_seen.insert(n.clone()) {
            return;
        }
        let t = sd.ty();
        let tix = self.ty(t);
        let v = match sd.eval_initializer() {
            Ok(a) => self.decode(t, &a, 0, 0),
            Err(_) => "{\"unk\":\"static\"}".into(),
        };
        self.statics.insert(n, format!("{{\"ty\":{},\"v\":{}}}", tix, v));
    }
    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tix = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::ZeroSized => match t.kind().rigid() {
                Some(RigidTy::FnDef(..)) => format!("{{\"fn\":{}}}", tix),
                Some(RigidTy::Tuple(_)) => "{\"tuple\":[]}".into(),
                _ => format!("{{\"zst\":{}}}", tix),
            },
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(vt, a) => self.decode(*vt, a, 0, 0),
                TyConstKind::ZSTValue(_) => format!("{{\"zst\":{}}}", tix),
                _ => "{\"unk\":\"tyconst\"}".into(),
            },
            ConstantKind::Unevaluated(u) => format!("{{\"unk\":{}}}", esc(&format!("uneval {}", u.def.name()))),
            ConstantKind::Param(_) => "{\"unk\":\"param\"}".into(),
        };
        format!("[\"c\",{},{}]", tix, v)
    }

    // ---- bodies ----------------------------------------------------------
    fn place(&mut self, p: &Place) -> String {
        let mut v = Vec::new();
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\".\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String {
        let v: Vec<String> = v.iter().map(|o| self.op(o)).collect();
        arr(v)
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::Aggregate(k, v) => {
                let os = self.ops(v);
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},0,{}]", self.ty(*t), os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,0,{}]", os),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        let t = d.ty_with_args(a);
                        format!("[\"agg\",\"adt\",{},{},{}]", self.ty(t), vi.to_index(), os)
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"agg\",\"closure\",{},0,{}]", self.ty(t), os)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"rawptr\",{},0,{}]", self.ty(*t), os),
                    _ => format!("[\"agg\",\"other\",0,0,{}]", os),
                }
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ost = self.op(o);
                format!("[\"cast\",{},{},{}]", esc(&ks), ost, self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let os = self.op(o);
                format!("[\"rep\",{},{}]", os, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
            }
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name())),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(m, Mutability::Mut)),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = Vec::new();
        for bb in &b.blocks {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let rv = self.rvalue(r);
                        st.push(format!("[\"=\",{},{}]", self.place(p), rv));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()))
                    }
                    StatementKind::StorageDead(_l) => {}
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => st.push(format!("[\"assume\",{}]", self.op(o))),
                    StatementKind::Intrinsic(_) => st.push("[\"copynonoverlapping\"]".into()),
                    _ => {}
                }
            }
            let sp = self.span(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{}]", self.op(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals());
                    let callee = match fty {
                        Ok(ft) => match ft.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                                let mut r = format!("\"def\":{},\"args\":{}", esc(&d.name()), self.args(&a));
                                match Instance::resolve(d, &a) {
                                    Ok(i) => {
                                        let k = match i.kind {
                                            InstanceKind::Item => "item",
                                            InstanceKind::Intrinsic => "intrinsic",
                                            InstanceKind::LlvmIntrinsic => "llvm",
                                            InstanceKind::Virtual { .. } => "virtual",
                                            InstanceKind::Shim => "shim",
                                        };
                                        if !matches!(i.kind, InstanceKind::Virtual { .. }) {
                                            let ii = self.inst(i);
                                            let _ = write!(r, ",\"inst\":{}", ii);
                                        }
                                        let _ = write!(r, ",\"ik\":\"{}\",\"rdef\":{}", k, esc(&i.def.name()));
                                    }
                                    Err(_) => r.push_str(",\"ik\":\"unresolved\""),
                                }
                                format!("{{{}}}", r)
                            }
                            _ => format!("{{\"ptr\":{}}}", self.op(func)),
                        },
                        Err(_) => "{\"ik\":\"unresolved\"}".into(),
                    };
                    let a = self.ops(args);
                    format!("[\"call\",{},{},{},{}]", callee, a, self.place(destination), target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.op(len), self.op(index)),
                        AssertMessage::Overflow(b, x, y) => format!("[\"overflow\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
                        AssertMessage::OverflowNeg(x) => format!("[\"overflowneg\",{}]", self.op(x)),
                        AssertMessage::DivisionByZero(x) => format!("[\"div0\",{}]", self.op(x)),
                        AssertMessage::RemainderByZero(x) => format!("[\"rem0\",{}]", self.op(x)),
                        _ => "[\"otherassert\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, m, target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{}}}", arr(st), t, esc(&sp)));
        }
        let mut dbg = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    dbg.push(format!("[{},{}]", p.local, esc(&v.name)));
                }
            }
        }
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":{},\"dbg\":{},\"span\":{}",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            arr(locals),
            arr(blocks),
            arr(dbg),
            esc(&self.span(&b.span))
        )
    }
    fn run(&mut self) {
        while let Some(ix) = self.queue.pop_front() {
            let i = self.insts[ix];
            let name = i.name();
            let krate = i.def.krate().name;
            let defname = i.def.name();
            let args = self.args(&i.args());
            let ik = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let d = strip_generics(&defname);
            let stopped = self.stop.iter().any(|s| if let Some(p) = s.strip_suffix('*') { d.starts_with(p) } else { d == *s });
            let mut o = format!(
                "\"name\":{},\"def\":{},\"crate\":{},\"args\":{},\"ik\":\"{}\"",
                esc(&name), esc(&defname), esc(&krate), args, ik
            );
            if !stopped && matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) {
                if let Some(b) = i.body() {
                    let bs = self.body(&b);
                    o.push(',');
                    o.push_str(&bs);
                }
            }
            self.bodies.insert(ix, format!("{{{}}}", o));
        }
    }
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let repo = std::env::var("MIRDUMP_REPO").unwrap();
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|f| std::fs::read_to_string(f).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty())
        .collect();
    let mut d = Dumper {
        types: vec![],
        type_ix: HashMap::new(),
        insts: vec![],
        inst_ix: HashMap::new(),
        queue: VecDeque::new(),
        stop,
        bodies: BTreeMap::new(),
        statics: BTreeMap::new(),
        static_seen: HashSet::new(),
    };
    let mut roots = Vec::new();
    for f in rustc_public::local_crate().fn_defs() {
        if let Ok(i) = Instance::try_from(CrateItem(f.def_id())) {
            let n = f.name();
            let ix = d.inst(i);
            roots.push(format!("{}:{}", esc(&n), ix));
        }
    }
    let mut repo_fns = Vec::new();
    let mut repo_generic = Vec::new();
    let mut repo_statics = Vec::new();
    let mut adts = Vec::new();
    for c in rustc_public::find_crates(&repo) {
        for f in c.fn_defs() {
            let n = f.name();
            let it = CrateItem(f.def_id());
            if it.requires_monomorphization() {
                repo_generic.push(esc(&n));
                continue;
            }
            if let Ok(i) = Instance::try_from(it) {
                let ix = d.inst(i);
                repo_fns.push(format!("{}:{}", esc(&n), ix));
            }
        }
        for s in c.statics() {
            repo_statics.push(esc(&s.name()));
        }
        for a in c.adts() {
            adts.push(esc(&a.name()));
        }
    }
    d.run();
    let mut s = String::new();
    s.push_str("{\"roots\":{");
    s.push_str(&roots.join(","));
    s.push_str("},\n\"repo_fns\":{");
    s.push_str(&repo_fns.join(","));
    let _ = write!(s, "}},\n\"repo_generic\":{},\"repo_statics\":{},\"repo_adts\":{}", arr(repo_generic), arr(repo_statics), arr(adts));
    s.push_str(",\n\"types\":[\n");
    s.push_str(&d.types.join(",\n"));
    s.push_str("],\n\"statics\":{");
    let st: Vec<String> = d.statics.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    s.push_str(&st.join(",\n"));
    s.push_str("},\n\"insts\":[\n");
    let bs: Vec<String> = d.bodies.values().cloned().collect();
    s.push_str(&bs.join(",\n"));
    s.push_str("]}\n");
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut real = "rustc".to_string();
    if args.len() > 1 && args[1].ends_with("rustc") {
        real = args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is_target {
        let r = run!(&args, dump);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        // every other crate (including the one under analysis): plain rustc
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&real).args(&args[1..]).exec();
        eprintln!("mirdump: cannot exec {}: {}", real, e);
        std::process::exit(1);
    }
}
