//! Compiler driver: compiles the specification crate (and, through its path
//! dependency, /repo's crate) and writes the monomorphic MIR of every function
//! reachable from the contract functions as JSON.  No code is rewritten: the
//! bodies are the ones rustc hands to code generation (mir-opt-level 0).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    fns: HashMap<String, String>,
    queued: HashSet<String>,
    queue: VecDeque<Instance>,
    stop: Vec<String>,
    redirect: HashMap<String, FnDef>,
}

fn is_std(name: &str) -> bool {
    let n = name.trim_start_matches(|c| c == '<' || c == '&' || c == '[' || c == '(');
    let n = n.trim_start_matches("mut ");
    n.starts_with("std::") || n.starts_with("core::") || n.starts_with("alloc::")
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let name = format!("{}", t);
        let body = match t.kind() {
            TyKind::RigidTy(r) => self.rigid(&r, t),
            k => format!("\"k\":\"other\",\"d\":{}", esc(&format!("{:?}", k))),
        };
        self.ty_out[i] = format!("{{\"n\":{},{}}}", esc(&name), body);
        i
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn rigid(&mut self, r: &RigidTy, _t: Ty) -> String {
        match r {
            RigidTy::Bool => "\"k\":\"bool\"".into(),
            RigidTy::Char => "\"k\":\"char\"".into(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", i.num_bytes() * 8),
            RigidTy::Float(f) => format!("\"k\":\"float\",\"f\":{}", esc(&format!("{:?}", f))),
            RigidTy::Str => "\"k\":\"str\"".into(),
            RigidTy::Never => "\"k\":\"never\"".into(),
            RigidTy::Slice(t) => format!("\"k\":\"slice\",\"t\":{}", self.ty(*t)),
            RigidTy::Array(t, c) => format!(
                "\"k\":\"array\",\"t\":{},\"len\":{}",
                self.ty(*t),
                c.eval_target_usize().map(|x| x as i64).unwrap_or(-1)
            ),
            RigidTy::Ref(_, t, m) => format!("\"k\":\"ref\",\"t\":{},\"m\":{}", self.ty(*t), *m == Mutability::Mut),
            RigidTy::RawPtr(t, m) => format!("\"k\":\"ptr\",\"t\":{},\"m\":{}", self.ty(*t), *m == Mutability::Mut),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("\"k\":\"tuple\",\"ts\":[{}]", v.join(","))
            }
            RigidTy::Adt(d, a) => {
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(a);
                        fs.push(format!("[{},{}]", esc(&f.name), self.ty(ft)));
                    }
                    let discr = if d.kind().is_enum() {
                        d.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name()), discr, fs.join(",")));
                }
                let kind = if d.kind().is_enum() {
                    "enum"
                } else if d.kind().is_union() {
                    "union"
                } else {
                    "struct"
                };
                let args = self.args(a);
                format!(
                    "\"k\":\"adt\",\"adt\":{},\"kind\":\"{}\",\"args\":{},\"vs\":[{}]",
                    esc(&d.name()),
                    kind,
                    args,
                    vs.join(",")
                )
            }
            RigidTy::FnDef(d, a) => {
                let args = self.args(a);
                let key = match Instance::resolve(*d, a) {
                    Ok(i) => self.inst(i),
                    Err(_) => String::new(),
                };
                format!("\"k\":\"fndef\",\"def\":{},\"args\":{},\"key\":{}", esc(&d.name()), args, esc(&key))
            }
            RigidTy::Closure(d, a) => {
                let args = self.args(a);
                let key = match Instance::resolve_closure(*d, a, ClosureKind::FnMut) {
                    Ok(i) => self.inst(i),
                    Err(_) => String::new(),
                };
                format!("\"k\":\"closure\",\"def\":{},\"args\":{},\"key\":{}", esc(&d.name()), args, esc(&key))
            }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
            RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
            o => format!("\"k\":\"other\",\"d\":{}", esc(&format!("{:?}", o))),
        }
    }

    fn inst(&mut self, i: Instance) -> String {
        let key = i.mangled_name();
        if self.queued.insert(key.clone()) {
            self.queue.push_back(i);
        }
        key
    }

    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{}", p.local);
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(i, _) => {
                    let _ = write!(o, ",{}", i);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l);
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(v) => {
                    let _ = write!(o, ",[\"v\",{}]", v.to_index());
                }
                ProjectionElem::OpaqueCast(_) => {}
            }
        }
        o.push(']');
        o
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 {
            return "{\"c\":\"unk\"}".into();
        }
        let ti = self.ty(t);
        let rd = |n: usize| a.read_partial_uint(off..off + n);
        let unk = |w: &str| format!("{{\"c\":\"unk\",\"w\":{}}}", esc(w));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => rd(1).map(|x| format!("{{\"c\":\"bool\",\"v\":{}}}", x != 0)).unwrap_or(unk("bool")),
                RigidTy::Char => rd(4).map(|x| format!("{{\"c\":\"int\",\"v\":{}}}", x)).unwrap_or(unk("char")),
                RigidTy::Int(i) => {
                    let n = i.num_bytes();
                    rd(n)
                        .map(|x| {
                            let sh = 128 - 8 * n as u32;
                            let v = ((x << sh) as i128) >> sh;
                            format!("{{\"c\":\"int\",\"v\":{}}}", v)
                        })
                        .unwrap_or(unk("int"))
                }
                RigidTy::Uint(i) => {
                    rd(i.num_bytes()).map(|x| format!("{{\"c\":\"int\",\"v\":{}}}", x)).unwrap_or(unk("uint"))
                }
                RigidTy::Float(FloatTy::F64) => {
                    rd(8).map(|x| format!("{{\"c\":\"f64\",\"v\":{}}}", x)).unwrap_or(unk("f64"))
                }
                RigidTy::Tuple(ts) => {
                    let Ok(l) = t.layout() else { return unk("layout") };
                    if let FieldsShape::Arbitrary { offsets } = l.shape().fields {
                        let v: Vec<String> = ts
                            .iter()
                            .zip(offsets.iter())
                            .map(|(t, o)| self.decode(a, off + o.bytes(), *t, depth + 1))
                            .collect();
                        format!("{{\"c\":\"agg\",\"t\":{},\"v\":0,\"f\":[{}]}}", ti, v.join(","))
                    } else if ts.is_empty() {
                        format!("{{\"c\":\"agg\",\"t\":{},\"v\":0,\"f\":[]}}", ti)
                    } else {
                        unk("tuple")
                    }
                }
                RigidTy::Array(et, c) => {
                    let n = c.eval_target_usize().unwrap_or(0) as usize;
                    let Ok(l) = et.layout() else { return unk("layout") };
                    let sz = l.shape().size.bytes();
                    let v: Vec<String> = (0..n).map(|i| self.decode(a, off + i * sz, et, depth + 1)).collect();
                    format!("{{\"c\":\"arr\",\"t\":{},\"f\":[{}]}}", ti, v.join(","))
                }
                RigidTy::Ref(_, pt, _) | RigidTy::RawPtr(pt, _) => {
                    let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                        return unk("noprov");
                    };
                    let base = rd(8).unwrap_or(0) as usize;
                    let target = GlobalAlloc::from(prov.0);
                    match target {
                        GlobalAlloc::Memory(ta) => match pt.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let len = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                                let b: Vec<u8> = ta.bytes[base..base + len].iter().map(|x| x.unwrap_or(0)).collect();
                                format!("{{\"c\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(&b)))
                            }
                            TyKind::RigidTy(RigidTy::Slice(et)) => {
                                let len = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                                let Ok(l) = et.layout() else { return unk("layout") };
                                let sz = l.shape().size.bytes();
                                let eti = self.ty(et);
                                let v: Vec<String> =
                                    (0..len).map(|i| self.decode(&ta, base + i * sz, et, depth + 1)).collect();
                                format!("{{\"c\":\"slice\",\"t\":{},\"f\":[{}]}}", eti, v.join(","))
                            }
                            _ => {
                                let v = self.decode(&ta, base, pt, depth + 1);
                                format!("{{\"c\":\"ref\",\"t\":{},\"v\":{}}}", ti, v)
                            }
                        },
                        GlobalAlloc::Function(i) => {
                            let k = self.inst(i);
                            format!("{{\"c\":\"fnptr\",\"key\":{}}}", esc(&k))
                        }
                        GlobalAlloc::Static(s) => {
                            format!("{{\"c\":\"static\",\"n\":{}}}", esc(&s.name()))
                        }
                        _ => unk("galloc"),
                    }
                }
                RigidTy::FnPtr(_) => {
                    if let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) {
                        if let GlobalAlloc::Function(i) = GlobalAlloc::from(prov.0) {
                            let k = self.inst(i);
                            return format!("{{\"c\":\"fnptr\",\"key\":{}}}", esc(&k));
                        }
                    }
                    unk("fnptr")
                }
                RigidTy::Adt(d, ga) => {
                    if d.kind().is_union() {
                        return unk("union");
                    }
                    let Ok(l) = t.layout() else { return unk("layout") };
                    let sh = l.shape();
                    let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                        VariantsShape::Single { index } => {
                            if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                                (index.to_index(), offsets.iter().map(|o| o.bytes()).collect())
                            } else {
                                (index.to_index(), vec![])
                            }
                        }
                        VariantsShape::Multiple { tag_encoding, tag_field, variants, tag } => {
                            let FieldsShape::Arbitrary { offsets } = &sh.fields else { return unk("fields") };
                            let toff = offsets[*tag_field].bytes();
                            let tsz = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. } => {
                                    value.size(&rustc_public::target::MachineInfo::target()).bytes()
                                }
                                _ => return unk("tag"),
                            };
                            let ptrtag = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let tv = a.read_partial_uint(off + toff..off + toff + tsz).unwrap_or(0);
                            let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut r = None;
                                    for v in d.variants() {
                                        if d.discriminant_for_variant(v.idx()).val & mask == tv {
                                            r = Some(v.idx().to_index());
                                        }
                                    }
                                    match r {
                                        Some(x) => x,
                                        None => return unk("discr"),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let n = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                    if !ptrtag && rel <= n {
                                        niche_variants.start().to_index() + rel as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                        }
                        _ => return unk("variants"),
                    };
                    let vd = d.variants()[vi].clone();
                    let fs: Vec<String> = vd
                        .fields()
                        .iter()
                        .enumerate()
                        .map(|(i, f)| {
                            let o = offs.get(i).copied().unwrap_or(0);
                            self.decode(a, off + o, f.ty_with_args(&ga), depth + 1)
                        })
                        .collect();
                    format!("{{\"c\":\"agg\",\"t\":{},\"v\":{},\"f\":[{}]}}", ti, vi, fs.join(","))
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => format!("{{\"c\":\"zst\",\"t\":{}}}", ti),
                _ => unk("rigid"),
            },
            _ => unk("kind"),
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => format!("{{\"c\":\"zst\",\"t\":{}}}", ti),
            ConstantKind::Allocated(a) => {
                let v = self.decode(a, 0, t, 0);
                format!("{{\"c\":\"val\",\"t\":{},\"x\":{}}}", ti, v)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => {
                    let v = self.decode(a, 0, *t2, 0);
                    format!("{{\"c\":\"val\",\"t\":{},\"x\":{}}}", ti, v)
                }
                _ => format!("{{\"c\":\"zst\",\"t\":{}}}", ti),
            },
            k => format!("{{\"c\":\"unk\",\"w\":{}}}", esc(&format!("{:?}", k))),
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.constant(&c.const_)),
            Operand::RuntimeChecks(_) => "[\"c\",{\"c\":\"bool\",\"v\":false}]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::AddressOf(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let t = match k {
                    AggregateKind::RawPtr(..) => None,
                    _ => r.ty(locals).ok(),
                };
                let ti = t.map(|t| self.ty(t) as i64).unwrap_or(-1);
                let (kk, var) = match k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, _) => ("adt", v.to_index()),
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                format!("[\"agg\",\"{}\",{},{},[{}]]", kk, ti, var, v.join(","))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), t)
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let ti = self.ty(*t);
                // a reified function pointer or closure needs its target
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), from, ti)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, c) => {
                format!("[\"repeat\",{},{}]", self.operand(o), c.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let ls: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p);
                        let rs = self.rvalue(r, &locals);
                        st.push(format!("[{},{}]", ps, rs));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                        st.push(format!("[{},[\"setd\",{},{}]]", self.place(place), variant_index.to_index(), t));
                    }
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let ty = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(discr), v.join(","), targets.otherwise(), ty)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{}]",
                        f,
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t as i64).unwrap_or(-1),
                        line
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        m => m.description().unwrap_or("assert").to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, esc(&m), target, line)
                }
                _ => "[\"resume\"]".into(),
            };
            blocks.push(format!("[[{}],{}]", st.join(","), t));
        }
        let mut dbg = vec![];
        for d in &b.var_debug_info {
            if let Some(l) = d.local() {
                dbg.push(format!("[{},{}]", esc(&d.name), l));
            }
        }
        format!(
            "\"argc\":{},\"locals\":[{}],\"spread\":{},\"dbg\":[{}],\"blocks\":[{}]",
            b.arg_locals().len(),
            ls.join(","),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            dbg.join(","),
            blocks.join(",")
        )
    }

    fn run(&mut self) {
        while let Some(i) = self.queue.pop_front() {
            let key = i.mangled_name();
            let name = i.name();
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let def = i.def.name();
            let args = self.args(&i.args());
            let span = i.def.span();
            let file = span.get_filename();
            let line = span.get_lines().start_line;
            let stopped = self.stop.iter().any(|s| def.starts_with(s.as_str()) || name.starts_with(s.as_str()));
            let want = (kind == "item" || kind == "shim") && !(stopped && is_std(&def));
            let body = if want && i.has_body() {
                match i.body() {
                    Some(b) => format!("{},", self.body(&b)),
                    None => String::new(),
                }
            } else {
                String::new()
            };
            let mut redir = String::new();
            if let Some(fd) = self.redirect.get(&def).cloned() {
                let ga: Vec<GenericArgKind> =
                    i.args().0.iter().filter(|a| matches!(a, GenericArgKind::Type(_) | GenericArgKind::Lifetime(_))).cloned().collect();
                if let Ok(r) = Instance::resolve(fd, &GenericArgs(ga)) {
                    let k = self.inst(r);
                    redir = format!("\"redir\":{},", esc(&k));
                }
            }
            let o = format!(
                "{{{}{}\"name\":{},\"def\":{},\"kind\":\"{}\",\"args\":{},\"file\":{},\"line\":{}}}",
                body,
                redir,
                esc(&name),
                esc(&def),
                kind,
                args,
                esc(&file),
                line
            );
            self.fns.insert(key, o);
        }
    }
}

fn analyze() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect())
        .unwrap_or_default();
    let mut d = Dump {
        tys: HashMap::new(),
        ty_out: vec![],
        fns: HashMap::new(),
        queued: HashSet::new(),
        queue: VecDeque::new(),
        stop,
        redirect: HashMap::new(),
    };
    // std functions whose body is replaced by a loop written in the contract crate:
    // lines "def<TAB>shim"; the shim takes the same type arguments
    let table: Vec<(String, String)> = std::env::var("MIRDUMP_REDIRECT")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|s| {
            s.lines()
                .filter_map(|l| l.split_once('\t').map(|(a, b)| (a.to_string(), b.trim().to_string())))
                .collect()
        })
        .unwrap_or_default();
    for it in rustc_public::all_local_items() {
        if it.kind() != ItemKind::Fn {
            continue;
        }
        let n = it.name();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        for (def, shim) in &table {
            if *shim == last {
                if let TyKind::RigidTy(RigidTy::FnDef(fd, _)) = it.ty().kind() {
                    d.redirect.insert(def.clone(), fd);
                }
            }
        }
    }
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if it.kind() != ItemKind::Fn || it.requires_monomorphization() {
            continue;
        }
        let n = it.name();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if !(last.starts_with("h_") || last.starts_with("shim_") || last.starts_with("x_")) {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let key = d.inst(i);
            roots.push(format!("{}:{}", esc(&n), esc(&key)));
        }
    }
    d.run();
    let mut s = String::from("{\"roots\":{");
    s.push_str(&roots.join(","));
    s.push_str("},\n\"types\":[\n");
    s.push_str(&d.ty_out.join(",\n"));
    s.push_str("],\n\"fns\":{\n");
    let mut ks: Vec<_> = d.fns.iter().collect();
    ks.sort();
    let v: Vec<String> = ks.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    s.push_str(&v.join(",\n"));
    s.push_str("}}\n");
    std::fs::write(&out, s).expect("write");
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "kspec");
    let probing = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    if !is_target || probing {
        let rustc = std::env::args().nth(1).unwrap();
        let st = std::process::Command::new(rustc).args(std::env::args().skip(2)).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    match run!(&args, analyze) {
        Ok(_) => std::process::exit(0),
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1)
        }
    }
}
