//! mirdump: a rustc driver that dumps, as JSON, the monomorphic MIR of every function of the crate
//! being compiled (and of the small std combinators it calls), with resolved callees and type definitions.
//! Used as RUSTC_WORKSPACE_WRAPPER; the text verified by pydv is exactly this compiler lowering.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::crate_def::CrateDefType;
use rustc_public::{CrateDef, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct D {
    types: Vec<String>,
    tmap: HashMap<Ty, usize>,
    work: VecDeque<Instance>,
    seen: HashSet<String>,
    fns: Vec<String>,
    local: String,
}

const EXPAND: &[&str] = &[
    "std::option::", "std::result::", "std::ops::", "std::cmp::", "core::", "std::borrow::Cow",
    "bladeink", "rinklecate", "std::iter::", "std::io::ErrorKind",
];
const STD_BODIES: &[&str] = &[
    "std::option::", "std::result::", "std::ops::ControlFlow", "std::ops::control_flow", "std::cmp::", "std::convert::",
    "std::iter::adapters", "std::iter::Map", "std::iter::Rev", "std::iter::Enumerate", "std::iter::Skip",
    "std::iter::Cloned", "std::iter::Filter", "std::ops::function", "std::ops::FnOnce", "std::ops::Try", "std::ops::FromResidual",
    "<std::option::", "<std::result::", "<std::ops::", "<std::cmp::", "<T as std::convert::",
];

impl D {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, i);
        let s = self.ty_str(t);
        self.types[i] = s;
        i
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in a.0.iter() {
            if let GenericArgKind::Type(t) = x {
                v.push(self.ty(*t).to_string());
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty_str(&mut self, t: Ty) -> String {
        let disp = js(&format!("{}", t));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"s\":\"{}\"", format!("{:?}", i).to_lowercase()),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"s\":\"{}\"", format!("{:?}", i).to_lowercase()),
                RigidTy::Float(i) => format!("\"k\":\"float\",\"s\":\"{}\"", format!("{:?}", i).to_lowercase()),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Ref(_, t, m) => {
                    let x = self.ty(t);
                    format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m == Mutability::Mut, x)
                }
                RigidTy::RawPtr(t, _) => {
                    let x = self.ty(t);
                    format!("\"k\":\"ptr\",\"t\":{}", x)
                }
                RigidTy::Slice(t) => {
                    let x = self.ty(t);
                    format!("\"k\":\"slice\",\"t\":{}", x)
                }
                RigidTy::Array(t, n) => {
                    let x = self.ty(t);
                    format!("\"k\":\"array\",\"t\":{},\"n\":{}", x, n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"a\":[{}]", v.join(","))
                }
                RigidTy::Adt(d, a) => {
                    let n = d.name();
                    let ga = self.gargs(&a);
                    let mut s = format!("\"k\":\"adt\",\"n\":{},\"a\":{},\"kind\":\"{:?}\"", js(&n), ga, d.kind());
                    let local = format!("{}", d.krate().name) == self.local;
                    if local || EXPAND.iter().any(|p| n.starts_with(p)) {
                        let mut vs = vec![];
                        for (vi, v) in d.variants().iter().enumerate() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&a);
                                fs.push(format!("[{},{}]", js(&f.name), self.ty(ft)));
                            }
                            let dv = if matches!(d.kind(), AdtKind::Enum) {
                                d.discriminant_for_variant(VariantIdx::to_val(vi)).val.to_string()
                            } else { "0".into() };
                            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", js(&v.name()), dv, fs.join(",")));
                        }
                        s += &format!(",\"v\":[{}]", vs.join(","));
                    }
                    s
                }
                RigidTy::FnDef(d, a) => {
                    let ga = self.gargs(&a);
                    let c = self.callee(d, &a);
                    format!("\"k\":\"fndef\",\"n\":{},\"a\":{},\"c\":{}", js(&d.name()), ga, c)
                }
                RigidTy::Closure(d, a) => {
                    let key = match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        Ok(_) => {
                            // the body instance itself
                            match Instance::resolve_closure(d, &a, ClosureKind::FnMut) {
                                Ok(i) => { let k = i.mangled_name(); self.enqueue(i); k }
                                Err(_) => String::new(),
                            }
                        }
                        Err(_) => String::new(),
                    };
                    // upvars: last generic arg is a tuple type
                    let mut up = "[]".to_string();
                    if let Some(GenericArgKind::Type(t)) = a.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                            let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                            up = format!("[{}]", v.join(","));
                        }
                    }
                    format!("\"k\":\"closure\",\"n\":{},\"key\":{},\"up\":{}", js(&d.name()), js(&key), up)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Dynamic(preds, _) => {
                    let mut n = String::new();
                    for p in preds.iter() {
                        if let ExistentialPredicate::Trait(t) = &p.value {
                            n = t.def_id.name();
                        }
                    }
                    format!("\"k\":\"dyn\",\"n\":{}", js(&n))
                }
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{{},\"disp\":{}}}", body, disp)
    }
    fn enqueue(&mut self, i: Instance) {
        let k = i.mangled_name();
        if !self.seen.contains(&k) {
            self.seen.insert(k);
            self.work.push_back(i);
        }
    }
    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let un = d.name();
        let ua = self.gargs(a);
        match Instance::resolve(d, a) {
            Ok(i) => {
                let rn = i.def.name();
                let kind = match i.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic => "intrinsic",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                    _ => "intrinsic",
                };
                let local = format!("{}", i.def.krate().name) == self.local;
                let mut key = "null".to_string();
                if kind == "item" || kind == "shim" {
                    let allow = local || STD_BODIES.iter().any(|p| rn.starts_with(p));
                    if allow && i.has_body() {
                        key = js(&i.mangled_name());
                        self.enqueue(i);
                    }
                }
                let ra = self.gargs(&i.args());
                format!("{{\"u\":{},\"ua\":{},\"r\":{},\"rn\":{},\"ra\":{},\"kind\":\"{}\",\"local\":{}}}", js(&un), ua, key, js(&rn), ra, kind, local)
            }
            Err(_) => format!("{{\"u\":{},\"ua\":{},\"r\":null,\"rn\":null,\"ra\":[],\"kind\":\"unresolved\",\"local\":false}}", js(&un), ua),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn alloc_bytes(a: &Allocation) -> String {
        arr(a.bytes.iter().map(|b| b.map(|x| x.to_string()).unwrap_or("null".into())))
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let b = match c.kind() {
            ConstantKind::Allocated(a) => {
                let mut pv = vec![];
                for (off, p) in &a.provenance.ptrs {
                    let g = match GlobalAlloc::from(p.0) {
                        GlobalAlloc::Memory(m) => {
                            let mut pp = vec![];
                            for (o2, p2) in &m.provenance.ptrs {
                                if let GlobalAlloc::Memory(m2) = GlobalAlloc::from(p2.0) {
                                    pp.push(format!("[{},{}]", o2, Self::alloc_bytes(&m2)));
                                }
                            }
                            format!("{{\"mem\":{},\"pv\":[{}]}}", Self::alloc_bytes(&m), pp.join(","))
                        }
                        GlobalAlloc::Static(s) => format!("{{\"static\":{}}}", js(&s.name())),
                        GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", js(&i.name())),
                        _ => "{}".into(),
                    };
                    pv.push(format!("[{},{}]", off, g));
                }
                format!("\"bytes\":{},\"pv\":[{}]", Self::alloc_bytes(a), pv.join(","))
            }
            ConstantKind::ZeroSized => "\"zst\":1".into(),
            ConstantKind::Unevaluated(u) => format!("\"uneval\":{}", js(&u.def.name())),
            _ => "\"other\":1".into(),
        };
        format!("{{\"t\":{},{}}}", t, b)
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.konst(&c.const_)),
            #[allow(unreachable_patterns)]
            _ => format!("[\"rt\",{}]", js(&format!("{:?}", o))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            #[allow(unreachable_patterns)]
            Rvalue::AddressOf(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into())),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*d, a.clone()));
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*d, a.clone()));
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    _ => "[\"other\"]".into(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",{},[{}]]", kk, v.join(","))
            }
            _ => format!("[\"other\",{}]", js(&format!("{:?}", r).chars().take(80).collect::<String>())),
        }
    }
    fn dump(&mut self, i: Instance) {
        let Some(b) = i.body() else { return };
        let mut locals = vec![];
        for l in b.locals() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", js(&v.name), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let a = self.place(p);
                        let c = self.rvalue(r);
                        ss.push(format!("[\"=\",{},{}]", a, c));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let a = self.place(place);
                        ss.push(format!("[\"setd\",{},{}]", a, variant_index.to_index()));
                    }
                    _ => {}
                }
            }
            let sp = bb.terminator.source_info.span;
            let line = sp.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr);
                    let bs: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},[{}],{}]", o, bs.join(","), targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "BoundsCheck".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("Overflow{:?}", op),
                        AssertMessage::OverflowNeg(..) => "OverflowNeg".into(),
                        AssertMessage::DivisionByZero(..) => "DivisionByZero".into(),
                        AssertMessage::RemainderByZero(..) => "RemainderByZero".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},\"{}\",{}]", self.operand(cond), expected, m, target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut c = String::from("null");
                    let mut fop = String::from("null");
                    match func {
                        Operand::Constant(k) => match k.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => c = self.callee(d, &a),
                            _ => fop = self.operand(func),
                        },
                        _ => fop = self.operand(func),
                    }
                    let av: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    format!("[\"call\",{},[{}],{},{},{}]", c, av.join(","), self.place(destination), target.map(|t| t.to_string()).unwrap_or("null".into()), fop)
                }
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{}}}", ss.join(","), t, line));
        }
        let ra = self.gargs(&i.args());
        let local = format!("{}", i.def.krate().name) == self.local;
        let f = format!(
            "{{\"key\":{},\"name\":{},\"ga\":{},\"local\":{},\"file\":{},\"nargs\":{},\"locals\":[{}],\"dbg\":[{}],\"blocks\":[{}]}}",
            js(&i.mangled_name()), js(&i.def.name()), ra, local, js(&i.def.span().get_filename()), b.arg_locals().len(), locals.join(","), dbg.join(","), blocks.join(",\n")
        );
        self.fns.push(f);
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a.starts_with("--print")) {
        for f in ["-Zmir-opt-level=0", "-Coverflow-checks=on", "-Cdebug-assertions=off", "-Zalways-encode-mir", "--cap-lints=allow"] {
            args.push(f.into());
        }
        let r = run!(&args, analyze);
        if r.is_err() { 
            let e = format!("{:?}", r);
            if !e.contains("Skipped") { eprintln!("mirdump: {}", e); std::process::exit(1); }
        }
    } else {
        let st = std::process::Command::new("rustc").args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
}

fn analyze() -> ControlFlow<()> {
    let Ok(out) = std::env::var("MIRDUMP_OUT") else { return ControlFlow::Continue(()) };
    let local = format!("{}", rustc_public::local_crate().name);
    let only = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    if !only.split(',').any(|c| c == local) { return ControlFlow::Continue(()) }
    let mut d = D { types: vec![], tmap: HashMap::new(), work: VecDeque::new(), seen: HashSet::new(), fns: vec![], local: local.clone() };
    for it in rustc_public::all_local_items() {
        if it.kind() != ItemKind::Fn { continue }
        if let Ok(i) = Instance::try_from(it) {
            if i.has_body() { d.enqueue(i); }
        }
    }
    while let Some(i) = d.work.pop_front() {
        d.dump(i);
    }
    let s = format!("{{\"crate\":{},\"types\":[{}],\"fns\":[{}]}}", js(&local), d.types.join(",\n"), d.fns.join(",\n"));
    std::fs::write(format!("{}/{}.json", out, local), s).unwrap();
    ControlFlow::Continue(())
}
