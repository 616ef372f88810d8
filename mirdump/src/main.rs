//! mirdump: rustc driver (wrapper) that dumps the monomorphised MIR of everything reachable from
//! the public functions of the crate being compiled as JSON lines, for the mirvc VC generator.
#![feature(rustc_private)]
#![allow(rustc::usage_of_ty_tykind)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T: AsRef<str>>(v: &[T]) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(x.as_ref());
    }
    o.push(']');
    o
}

#[derive(Default)]
struct Cx {
    tys: HashMap<Ty, usize>,
    ty_q: VecDeque<Ty>,
    inst: HashMap<Instance, usize>,
    inst_q: VecDeque<Instance>,
    allocs: HashMap<usize, usize>,
    alloc_q: VecDeque<(usize, rustc_public::mir::alloc::AllocId)>,
}

fn pruned(name: &str) -> bool {
    const P: &[&str] = &[
        "core::fmt::", "std::fmt::", "alloc::fmt::", "core::panicking::", "std::rt::", "std::panicking::",
        "alloc::raw_vec::", "alloc::alloc::", "std::alloc::", "core::str::", "std::sync::", "std::thread::",
        "std::backtrace", "std::io::", "alloc::collections", "core::slice::sort", "hashbrown", "rayon", "ckb_types",
        "core::unicode", "std::env", "std::fs", "std::sys", "core::num::flt2dec", "core::num::dec2flt",
    ];
    P.iter().any(|p| name.starts_with(p) || name.starts_with(&format!("<{}", p)))
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_q.push_back(t);
        i
    }
    fn instance(&mut self, t: Instance) -> usize {
        if let Some(i) = self.inst.get(&t) {
            return *i;
        }
        let i = self.inst.len();
        self.inst.insert(t, i);
        self.inst_q.push_back(t);
        i
    }
    fn allocid(&mut self, a: rustc_public::mir::alloc::AllocId) -> usize {
        use rustc_public_bridge::IndexedVal;
        let k = a.to_index();
        if let Some(i) = self.allocs.get(&k) {
            return *i;
        }
        let i = self.allocs.len();
        self.allocs.insert(k, i);
        self.alloc_q.push_back((i, a));
        i
    }
    fn alloc_body(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{:02x}", b);
                }
                None => hex.push_str("00"),
            }
        }
        let prov: Vec<String> = a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| format!("[{},{}]", o, self.allocid(p.0)))
            .collect();
        format!("\"b\":\"{}\",\"p\":{}", hex, list(&prov))
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("\"{}\"", n),
                    Err(_) => "\"?\"".into(),
                }),
            })
            .collect();
        list(&v)
    }
    fn layout(&mut self, t: Ty) -> String {
        let l = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return String::new(),
        };
        let offs = match &l.fields {
            FieldsShape::Arbitrary { offsets } => {
                list(&offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>())
            }
            _ => "[]".into(),
        };
        let v = match &l.variants {
            VariantsShape::Empty => "null".to_string(),
            VariantsShape::Single { index } => format!("{{\"single\":{}}}", rustc_public_bridge::IndexedVal::to_index(index)),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                use rustc_public::abi::{Primitive, Scalar};
                let prim = match tag {
                    Scalar::Initialized { value, .. } => value.clone(),
                    Scalar::Union { value } => value.clone(),
                };
                let tsz = match prim {
                    Primitive::Int { length, .. } => length.bits() / 8,
                    Primitive::Pointer(_) => 8,
                    _ => 0,
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":{}}}",
                        rustc_public_bridge::IndexedVal::to_index(untagged_variant),
                        rustc_public_bridge::IndexedVal::to_index(niche_variants.start()),
                        rustc_public_bridge::IndexedVal::to_index(niche_variants.end()),
                        niche_start
                    ),
                };
                let vo: Vec<String> = variants
                    .iter()
                    .map(|v| list(&v.offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>()))
                    .collect();
                format!("{{\"tsz\":{},\"tf\":{},\"enc\":{},\"vo\":{}}}", tsz, tag_field, enc, list(&vo))
            }
        };
        format!(",\"size\":{},\"offs\":{},\"var\":{}", l.size.bytes(), offs, v)
    }
    fn dump_ty(&mut self, t: Ty) -> String {
        let id = self.tys[&t];
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\",\"size\":1".into(),
                RigidTy::Char => "\"k\":\"char\",\"size\":4".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"size\":{}", i.num_bytes()),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"size\":{}", i.num_bytes()),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Array(e, n) => format!(
                    "\"k\":\"array\",\"e\":{},\"n\":{}{}",
                    self.ty(e),
                    n.eval_target_usize().unwrap_or(0),
                    self.layout(t)
                ),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}{}", self.ty(e), m == Mutability::Mut, self.layout(t))
                }
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}{}", self.ty(e), m == Mutability::Mut, self.layout(t))
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!("\"k\":\"tuple\",\"f\":{}{}", list(&v), self.layout(t))
                }
                RigidTy::FnDef(d, a) => {
                    let inst = match Instance::resolve(d, &a) {
                        Ok(i) => self.instance(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{}", js(&d.name()), self.args(&a), inst)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let inst = match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        Ok(i) => self.instance(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    // upvar tuple type is the last generic arg
                    let up = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                        _ => "null".into(),
                    };
                    format!("\"k\":\"closure\",\"name\":{},\"up\":{},\"once\":{}{}", js(&d.name()), up, inst, self.layout(t))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Adt(d, a) => {
                    let kind = match d.kind() {
                        AdtKind::Struct => "struct",
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                    };
                    let mut vs = vec![];
                    for v in d.variants_iter() {
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| format!("[{},{}]", js(&f.name), self.ty(f.ty_with_args(&a))))
                            .collect();
                        let discr = if kind == "enum" {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!("{{\"name\":{},\"d\":{},\"f\":{}}}", js(&v.name()), discr, list(&fs)));
                    }
                    format!(
                        "\"k\":\"adt\",\"name\":{},\"kind\":\"{}\",\"args\":{},\"v\":{}{}",
                        js(&d.name()),
                        kind,
                        self.args(&a),
                        list(&vs),
                        self.layout(t)
                    )
                }
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{\"t\":\"ty\",\"id\":{},\"s\":{},{}}}", id, js(&format!("{}", t)), body)
    }
    fn place(&mut self, p: &Place) -> String {
        let pr: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"*\"]".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"dc\",{}]", rustc_public_bridge::IndexedVal::to_index(v)),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
            })
            .collect();
        format!("[{},{}]", p.local, list(&pr))
    }
    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => format!("{{\"ty\":{},\"z\":1}}", ti),
            ConstantKind::Allocated(a) => {
                let b = self.alloc_body(a);
                format!("{{\"ty\":{},{}}}", ti, b)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let b = self.alloc_body(a);
                    format!("{{\"ty\":{},{}}}", ti, b)
                }
                TyConstKind::ZSTValue(_) => format!("{{\"ty\":{},\"z\":1}}", ti),
                _ => format!("{{\"ty\":{},\"bad\":{}}}", ti, js(&format!("{:?}", tc))),
            },
            k => format!("{{\"ty\":{},\"bad\":{}}}", ti, js(&format!("{:?}", k))),
        }
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", self.place(p), bk.to_mutable_lossy() == Mutability::Mut)
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::Cast(k, o, t) => {
                let extra = if let CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) = k { "" } else { "" };
                format!("[\"cast\",{},{},{}]{}", js(&format!("{:?}", k)), self.operand(o), self.ty(*t), extra)
            }
            Rvalue::Repeat(o, n) => {
                format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!(
                            "[\"adt\",{},{},{}]",
                            t,
                            rustc_public_bridge::IndexedVal::to_index(v),
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", kk, list(&o))
            }
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for d in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value {
                names.push(format!("[{},{}]", js(&d.name), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let (p, r) = (self.place(p), self.rvalue(r));
                        st.push(format!("[\"=\",{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[\"sd\",{},{}]",
                            self.place(place),
                            rustc_public_bridge::IndexedVal::to_index(variant_index)
                        ));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        st.push(format!("[\"assume\",{}]", self.operand(o)));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        st.push(format!(
                            "[\"cno\",{},{},{}]",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count)
                        ));
                    }
                    _ => {}
                }
            }
            let span = bb.terminator.source_info.span.get_lines();
            let line = span.start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"sw\",{},{},{}]", self.operand(discr), list(&br), targets.otherwise())
                }
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(x)).collect();
                    let mut callee = "null".to_string();
                    if let Operand::Constant(c) = func {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = c.ty().kind() {
                            if let Ok(i) = Instance::resolve(d, &ga) {
                                callee = self.instance(i).to_string();
                            }
                        }
                    }
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        callee,
                        self.operand(func),
                        list(&a),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, _, _) => format!("overflow-{:?}", op),
                        AssertMessage::OverflowNeg(_) => "overflow-neg".into(),
                        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "div0".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, js(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[{},{},{}]", list(&st), t, line));
        }
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"bbs\":{}",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            list(&locals),
            list(&names),
            list(&blocks)
        )
    }
}

fn dump(path: &str) {
    let f = std::fs::File::create(path).unwrap();
    let mut w = std::io::BufWriter::new(f);
    let mut cx = Cx::default();
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if let Ok(inst) = Instance::try_from(item) {
            if matches!(item.kind(), rustc_public::ItemKind::Fn) && item.has_body() {
                let id = cx.instance(inst);
                roots.push(format!("[{},{}]", js(&item.name()), id));
            }
        }
    }
    writeln!(w, "{{\"t\":\"roots\",\"r\":{}}}", list(&roots)).unwrap();
    loop {
        if let Some(i) = cx.inst_q.pop_front() {
            let id = cx.inst[&i];
            let name = i.name();
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let defname = i.def.name();
            let intr = i.intrinsic_name();
            let body = if kind == "virtual" || kind == "intrinsic" || kind == "llvm" || pruned(&defname) {
                None
            } else {
                i.body()
            };
            let args = cx.args(&i.args());
            let span = i.def.span();
            let file = span.get_filename();
            let line = span.get_lines().start_line;
            let b = match &body {
                Some(b) => cx.body(b),
                None => "\"nobody\":1".into(),
            };
            let ity = cx.ty(i.ty());
            writeln!(
                w,
                "{{\"t\":\"fn\",\"id\":{},\"name\":{},\"def\":{},\"kind\":\"{}\",\"intr\":{},\"args\":{},\"ity\":{},\"src\":{},\"empty\":{},{}}}",
                id,
                js(&name),
                js(&defname),
                kind,
                intr.map(|x| js(&x)).unwrap_or("null".into()),
                args,
                ity,
                js(&format!("{}:{}", file, line)),
                i.is_empty_shim(),
                b
            )
            .unwrap();
            continue;
        }
        if let Some(t) = cx.ty_q.pop_front() {
            let s = cx.dump_ty(t);
            writeln!(w, "{}", s).unwrap();
            continue;
        }
        if let Some((i, a)) = cx.alloc_q.pop_front() {
            let s = match GlobalAlloc::from(a) {
                GlobalAlloc::Memory(m) => cx.alloc_body(&m),
                GlobalAlloc::Function(f) => format!("\"fn\":{}", cx.instance(f)),
                GlobalAlloc::Static(s) => match s.eval_initializer() {
                    Ok(m) => format!("\"static\":{},{}", js(&s.name()), cx.alloc_body(&m)),
                    Err(_) => "\"bad\":1".into(),
                },
                _ => "\"bad\":1".into(),
            };
            writeln!(w, "{{\"t\":\"alloc\",\"id\":{},{}}}", i, s).unwrap();
            continue;
        }
        break;
    }
    w.flush().unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc
    let mut rargs: Vec<String> = args[1..].to_vec();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = rargs.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if !is_target {
        let st = std::process::Command::new(&rargs[0]).args(&rargs[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    rargs.push("-Zalways-encode-mir".into());
    let r = run!(&rargs, || -> ControlFlow<(), ()> {
        dump(&out);
        ControlFlow::Continue(())
    });
    if r.is_err() {
        std::process::exit(1);
    }
}
