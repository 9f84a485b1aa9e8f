// MIR exporter: runs the real compiler front end on the real crates and writes the monomorphised
// MIR of every function reachable from the roots as JSON.  Used as RUSTC_WRAPPER; for crates named
// in VP_DUMP_CRATES it exports, for all others it just runs rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Ctx {
    tys: Vec<String>,
    ty_ids: HashMap<Ty, usize>,
    allocs: Vec<String>,
    alloc_ids: HashMap<String, usize>,
    queue: VecDeque<Instance>,
    queued: HashSet<String>,
    bodies: Vec<String>,
    ws: Vec<String>,
}

const CORE_OK: &[&str] = &[
    "option::", "result::", "cmp::", "mem::", "convert::", "iter::", "ops::", "slice::", "clone::",
    "num::", "bool::", "array::", "f64::", "intrinsics::", "borrow::", "default::", "ptr::", "str::", "char::", "vec::", "cell::", "boxed::", "tuple::", "fmt::", "macros::", "ascii::", "string::", "hint::", "marker::", "any::", "hash::",
];

impl Ctx {
    fn inst_key(&self, i: &Instance) -> String {
        format!("{}", i.mangled_name())
    }
    fn krate(&self, i: &Instance) -> String {
        i.def.krate().name.to_string()
    }
    fn want_body(&self, i: &Instance) -> bool {
        if i.kind != InstanceKind::Item && i.kind != InstanceKind::Shim { return false }
        if !i.has_body() { return false }
        let k = self.krate(i);
        if self.ws.contains(&k) { return true }
        if k == "core" || k == "alloc" || k == "std" {
            let n = format!("{}", i.name());
            if n.contains("fmt::") { return false }
            return CORE_OK.iter().any(|p| n.contains(p));
        }
        false
    }
    fn enqueue(&mut self, i: Instance) {
        let key = self.inst_key(&i);
        if self.queued.contains(&key) { return }
        if self.want_body(&i) {
            self.queued.insert(key);
            self.queue.push_back(i);
        }
    }
    fn inst(&mut self, i: Instance) -> String {
        let key = self.inst_key(&i);
        let s = format!(
            "{{\"key\":{},\"name\":{},\"kind\":\"{:?}\",\"crate\":{},\"intrinsic\":{}}}",
            esc(&key), esc(&i.name().to_string()), i.kind, esc(&self.krate(&i)),
            match i.intrinsic_name() { Some(n) if i.kind == InstanceKind::Intrinsic => esc(&n.to_string()), _ => "null".into() },
        );
        self.enqueue(i);
        s
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"const\":{}}}", n),
                    Err(_) => format!("{{\"constdbg\":{}}}", esc(&format!("{:?}", c.kind()))),
                }),
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) { return *i }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(String::new());
        let disp = esc(&format!("{}", t));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"f\":\"{:?}\"", f),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Foreign(d) => format!("\"k\":\"foreign\",\"name\":{}", esc(&d.name().to_string())),
                RigidTy::Adt(def, args) => {
                    let a = self.args(&args);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", esc(&f.name.to_string()), self.ty(ft)));
                        }
                        let d = if def.kind() == AdtKind::Enum { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}", esc(&v.name().to_string()), d, fs.join(",")));
                    }
                    format!("\"k\":\"adt\",\"name\":{},\"akind\":\"{:?}\",\"box\":{},\"args\":{},\"variants\":[{}]",
                        esc(&def.name().to_string()), def.kind(), def.is_box(), a, vs.join(","))
                }
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut),
                RigidTy::FnDef(def, args) => {
                    let a = self.args(&args);
                    let inst = match Instance::resolve(def, &args) { Ok(i) => self.inst(i), Err(_) => "null".into() };
                    format!("\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{}", esc(&def.name().to_string()), a, inst)
                }
                RigidTy::FnPtr(sig) => {
                    let s = sig.skip_binder();
                    let v: Vec<_> = s.inputs_and_output.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"fnptr\",\"io\":[{}]", v.join(","))
                }
                RigidTy::Closure(def, args) => {
                    let a = self.args(&args);
                    let mut insts = vec![];
                    // the closure's own body, whatever trait it is called through
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        match Instance::resolve_closure(def, &args, k) {
                            Ok(i) if i.kind == InstanceKind::Item => { insts.push(self.inst(i)); break }
                            Ok(_) => {}
                            Err(_) => {}
                        }
                    }
                    let _ = &insts;
                    format!("\"k\":\"closure\",\"name\":{},\"args\":{},\"inst\":{}", esc(&def.name().to_string()), a,
                        insts.pop().unwrap_or("null".into()))
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<_> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(","))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                other => format!("\"k\":\"other\",\"dbg\":{}", esc(&format!("{:?}", other))),
            },
            other => format!("\"k\":\"other\",\"dbg\":{}", esc(&format!("{:?}", other))),
        };
        self.tys[id] = format!("{{\"s\":{},{}}}", disp, body);
        id
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in &a.bytes {
            match b { Some(x) => { let _ = write!(hex, "{:02x}", x); } None => hex.push_str("__") }
        }
        let mut pv = vec![];
        for (off, p) in &a.provenance.ptrs {
            let key = format!("{:?}", p.0);
            let id = if let Some(i) = self.alloc_ids.get(&key) { *i } else {
                let id = self.allocs.len();
                self.alloc_ids.insert(key, id);
                self.allocs.push(String::new());
                let s = match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(m) => format!("{{\"mem\":{}}}", self.alloc(&m)),
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    GlobalAlloc::Static(d) => format!("{{\"static\":{}}}", esc(&d.name().to_string())),
                    _ => "{\"other\":1}".to_string(),
                };
                self.allocs[id] = s;
                id
            };
            pv.push(format!("[{},{}]", off, id));
        }
        format!("{{\"bytes\":\"{}\",\"prov\":[{}]}}", hex, pv.join(","))
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::Allocated(a) => format!("\"alloc\":{}", self.alloc(a)),
            ConstantKind::ZeroSized => "\"zst\":true".into(),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("\"usize\":{}", n),
                Err(_) => match tc.kind() {
                    TyConstKind::Value(_, a) => format!("\"alloc\":{}", self.alloc(a)),
                    TyConstKind::ZSTValue(_) => "\"zst\":true".into(),
                    o => format!("\"dbg\":{}", esc(&format!("{:?}", o))),
                },
            },
            ConstantKind::Unevaluated(u) => {
                let a = self.args(&u.args);
                format!("\"uneval\":{},\"args\":{}", esc(&u.def.name().to_string()), a)
            }
            ConstantKind::Param(p) => format!("\"param\":{}", esc(&p.name)),
        };
        format!("{{\"ty\":{},{}}}", t, v)
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".into(),
                ProjectionElem::Field(i, t) => format!("[\"field\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cindex\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"downcast\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"cast\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"copy\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"move\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"const\":{}}}", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("{{\"rtcheck\":\"{:?}\"}}", r),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addrof\",\"{:?}\",{}]", k, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<_> = ops.iter().map(|o| self.op(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!("[\"adt\",{},{},{}]", t, v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => { let t = self.ty(Ty::new_closure(*d, a.clone())); format!("[\"closure\",{}]", t) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", ks, o.join(","))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"copy\":{}}}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",\"{}\",{}]", if matches!(k, BorrowKind::Mut{..}) {"mut"} else {"shared"}, self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",\"{}\",{}]", if *m == Mutability::Mut {"mut"} else {"shared"}, self.place(p)),
        }
    }
    fn body(&mut self, i: &Instance) {
        let Some(b) = i.body() else { return };
        let locals: Vec<_> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{},{}]", esc(&v.name.to_string()), self.place(p),
                    v.argument_index.map(|x| x.to_string()).unwrap_or("null".into())));
            }
        }
        let line = |s: &Span| s.get_lines().start_line;
        let mut blocks = vec![];
        for bl in &b.blocks {
            let mut ss = vec![];
            for s in &bl.statements {
                let ln = line(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => { let x = self.place(p); let y = self.rv(r); ss.push(format!("[\"=\",{},{},{}]", x, y, ln)) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let x = self.place(place); ss.push(format!("[\"setdiscr\",{},{}]", x, variant_index.to_index())) }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let x = self.op(o); ss.push(format!("[\"assume\",{}]", x)) }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let x = self.op(&c.src); let y = self.op(&c.dst); let z = self.op(&c.count);
                        ss.push(format!("[\"copynonoverlapping\",{},{},{}]", x, y, z)) }
                    _ => {}
                }
            }
            let ln = line(&bl.terminator.source_info.span);
            let unw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.to_string(), _ => "null".into() };
            let t = match &bl.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<_> = targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b)).collect();
                    format!("[\"switch\",{},[{}],{},{}]", self.op(discr), v.join(","), targets.otherwise(), ln)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b.locals()).unwrap();
                    let inst = Instance::resolve_drop_in_place(ty);
                    // user-defined Drop impls of the workspace are reachable through the shim
                    let tid = self.ty(ty);
                    let k = if inst.is_empty_shim() { "null".to_string() } else { self.inst(inst) };
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target, tid, k)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = self.op(func);
                    let a: Vec<_> = args.iter().map(|o| self.op(o)).collect();
                    format!("[\"call\",{},[{}],{},{},{},{}]", f, a.join(","), self.place(destination),
                        target.map(|x| x.to_string()).unwrap_or("null".into()), ln, unw(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertMessage::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertMessage::DivisionByZero(_) => "divzero".to_string(),
                        AssertMessage::RemainderByZero(_) => "remzero".to_string(),
                        AssertMessage::MisalignedPointerDereference { .. } => "misaligned".to_string(),
                        AssertMessage::NullPointerDereference => "nullptr".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, esc(&m), target, ln)
                }
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{}}}", ss.join(","), t));
        }
        let it = self.ty(i.ty());
        let key = self.inst_key(i);
        let file = esc(&b.span.get_filename());
        let s = format!(
            "{{\"key\":{},\"name\":{},\"crate\":{},\"file\":{},\"line\":{},\"ty\":{},\"args\":{},\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}]}}",
            esc(&key), esc(&i.name().to_string()), esc(&self.krate(i)), file, b.span.get_lines().start_line, it,
            { let a = i.args(); self.args(&a) }, b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals.join(","), names.join(","), blocks.join(",\n"));
        self.bodies.push(s);
    }
}

fn export() -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let mut cx = Ctx::default();
    cx.ws = std::env::var("VP_WORKSPACE_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut roots = vec![];
    let mut sigs = vec![];
    for it in rustc_public::all_local_items() {
        let k = it.kind();
        if k != rustc_public::ItemKind::Fn { continue }
        if it.requires_monomorphization() { continue }
        if let Ok(inst) = Instance::try_from(it) {
            roots.push(esc(&cx.inst_key(&inst)));
            let t = cx.ty(inst.ty());
            let sig = match inst.ty().kind().fn_sig() {
                Some(s) => { let s = s.skip_binder(); let v: Vec<_> = s.inputs_and_output.iter().map(|t| cx.ty(*t).to_string()).collect(); format!("{{\"abi\":{},\"io\":[{}]}}", esc(&format!("{:?}", s.abi)), v.join(",")) }
                None => "null".into() };
            sigs.push(format!("{{\"key\":{},\"name\":{},\"ty\":{},\"sig\":{}}}", esc(&cx.inst_key(&inst)), esc(&inst.name().to_string()), t, sig));
            cx.enqueue(inst);
        }
    }
    while let Some(i) = cx.queue.pop_front() { cx.body(&i) }
    let out = format!("{{\"crate\":{},\"roots\":[{}],\"sigs\":[{}],\n\"types\":[{}],\n\"allocs\":[{}],\n\"bodies\":[{}]}}\n",
        esc(&krate.name.to_string()), roots.join(","), sigs.join(","), cx.tys.join(",\n"), cx.allocs.join(",\n"), cx.bodies.join(",\n"));
    let dir = std::env::var("VP_DUMP_DIR").unwrap();
    std::fs::write(format!("{}/{}.json", dir, krate.name), out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[1] is the real rustc when used as RUSTC_WRAPPER
    let rustc = args.remove(1);
    let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let dump = std::env::var("VP_DUMP_CRATES").unwrap_or_default();
    if dump.split(',').any(|c| c == name) {
        let r = run!(&args, export);
        if r.is_err() { std::process::exit(1) }
    } else {
        let st = std::process::Command::new(rustc).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
}
