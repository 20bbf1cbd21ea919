// MIR exporter: a rustc driver that acts as plain rustc for every crate, and for the crate named in
// MIREXP_CRATE additionally dumps, as JSON, the monomorphised MIR of everything reachable from the
// functions listed in MIREXP_ROOTS.  Functions matching a pattern in MIREXP_STOP are not descended
// into (the engine models them); functions matching MIREXP_REDIRECT are replaced by generic model
// functions of the harness crate.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate serde_json;

use rustc_public::abi::{FieldsShape, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet};
use std::ops::ControlFlow;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC: argv[0] is this binary
    args[0] = "rustc".into();
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("MIREXP_CRATE").unwrap_or_default();
    if std::env::var("CARGO_CFG_TARGET_OS").is_ok() {
        // a build script probing the compiler: behave like a stable one
        std::env::set_var("RUSTC_BOOTSTRAP", "-1");
    } else if !crate_name.is_empty() && crate_name != "___" && crate_name != "build_script_build" {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    }
    if !want.is_empty() && want == crate_name && std::env::var("MIREXP_OUT").is_ok() {
        let r = rustc_public::run!(&args, export);
        match r {
            Ok(_) => {}
            Err(e) => {
                eprintln!("mirexport: {:?}", e);
                std::process::exit(1)
            }
        }
    } else {
        use std::os::unix::process::CommandExt;
        let rustc = std::env::var("MIREXP_RUSTC").expect("MIREXP_RUSTC");
        let e = std::process::Command::new(rustc).args(&args[1..]).exec();
        panic!("exec: {e}");
    }
}

fn glob(p: &str, s: &str) -> bool {
    // '*' matches anything
    let parts: Vec<&str> = p.split('*').collect();
    if parts.len() == 1 {
        return p == s;
    }
    if !s.starts_with(parts[0]) {
        return false;
    }
    let mut pos = parts[0].len();
    for (i, part) in parts.iter().enumerate().skip(1) {
        if i == parts.len() - 1 {
            return s.len() >= pos + part.len() && s.ends_with(part);
        }
        match s[pos..].find(part) {
            Some(k) => pos += k + part.len(),
            None => return false,
        }
    }
    true
}

fn dname(d: rustc_public::DefId) -> String {
    use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
    rustc_middle::ty::tls::with(|tcx| {
        let id = rustc_public::rustc_internal::internal(tcx, d);
        with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(id)))
    })
}

struct Ex {
    stop: Vec<String>,
    redirect: Vec<(String, FnDef)>,
    insts: HashMap<Instance, usize>,
    queue: Vec<Instance>,
    fns: Vec<Value>,
    tys: HashMap<Ty, usize>,
    tyq: Vec<Ty>,
    ty_out: Map<String, Value>,
    allocs: HashMap<AllocId, ()>,
    alloc_out: Map<String, Value>,
    statics: HashMap<String, usize>,
    static_out: Map<String, Value>,
}

fn export() -> ControlFlow<(), ()> {
    let out = std::env::var("MIREXP_OUT").unwrap();
    let roots: HashSet<String> = std::env::var("MIREXP_ROOTS")
        .unwrap_or_default()
        .split(',')
        .map(|s| s.to_string())
        .collect();
    let read = |k: &str| -> Vec<String> {
        std::env::var(k)
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .unwrap_or_default()
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .collect()
    };
    let local = rustc_public::local_crate();
    let fns = local.fn_defs();
    let byname: HashMap<String, FnDef> = fns.iter().map(|f| (dname(f.def_id()), *f)).collect();
    let mut ex = Ex {
        stop: read("MIREXP_STOP"),
        redirect: vec![],
        insts: HashMap::new(),
        queue: vec![],
        fns: vec![],
        tys: HashMap::new(),
        tyq: vec![],
        ty_out: Map::new(),
        allocs: HashMap::new(),
        alloc_out: Map::new(),
        statics: HashMap::new(),
        static_out: Map::new(),
    };
    for l in read("MIREXP_REDIRECT") {
        let (p, t) = l.split_once(" => ").expect("redirect line");
        let d = byname.get(t).unwrap_or_else(|| panic!("no redirect target {t}"));
        ex.redirect.push((p.to_string(), *d));
    }
    let mut root_out = Map::new();
    let all = roots.contains("*");
    for (n, f) in byname.iter() {
        let short = n.rsplit("::").next().unwrap_or("").to_string();
        if roots.contains(n) || roots.contains(&short) || (all && short.starts_with("h_")) || short.starts_with("stub_") {
            if let Ok(i) = Instance::resolve(*f, &GenericArgs(vec![])) {
                let id = ex.inst(i);
                root_out.insert(short, json!(id));
            }
        }
    }
    ex.run();
    let v = json!({
        "roots": root_out, "fns": ex.fns, "tys": ex.ty_out, "allocs": ex.alloc_out, "statics": ex.static_out,
    });
    let f = std::fs::File::create(&out).unwrap();
    serde_json::to_writer(std::io::BufWriter::new(f), &v).unwrap();
    ControlFlow::Continue(())
}

impl Ex {
    fn redirect(&self, i: Instance) -> Instance {
        let n = dname(i.def.def_id());
        for (p, f) in &self.redirect {
            if glob(p, &n) {
                let args: Vec<GenericArgKind> = i
                    .args()
                    .0
                    .iter()
                    .filter(|a| !matches!(a, GenericArgKind::Lifetime(_)))
                    .cloned()
                    .collect();
                let mut args = args.into_iter();
                let mut out = vec![];
                for g in f.generics_of().params.iter() {
                    if matches!(g.kind, GenericParamDefKind::Lifetime) {
                        out.push(GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }));
                    } else if let Some(a) = args.next() {
                        out.push(a);
                    }
                }
                let args = out;
                match Instance::resolve(*f, &GenericArgs(args)) {
                    Ok(r) => return r,
                    Err(e) => panic!("redirect {n}: {e:?}"),
                }
            }
        }
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        let i = self.redirect(i);
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        let k = self.fns.len();
        self.insts.insert(i, k);
        self.fns.push(Value::Null);
        self.queue.push(i);
        k
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(k) = self.tys.get(&t) {
            return *k;
        }
        let k = self.tys.len();
        self.tys.insert(t, k);
        self.tyq.push(t);
        k
    }
    fn run(&mut self) {
        loop {
            if let Some(i) = self.queue.pop() {
                let k = self.insts[&i];
                let v = self.function(i);
                self.fns[k] = v;
            } else if let Some(t) = self.tyq.pop() {
                let k = self.tys[&t];
                let v = self.ty_desc(t);
                self.ty_out.insert(k.to_string(), v);
            } else {
                break;
            }
        }
    }
    fn gargs(&mut self, a: &GenericArgs) -> Value {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(json!(self.ty(*t))),
                GenericArgKind::Const(c) => v.push(json!({"c": c.eval_target_usize().ok()})),
                _ => {}
            }
        }
        Value::Array(v)
    }
    fn layout(&self, t: Ty) -> Value {
        // the compiler can fail on the layout of a type met outside of the code it occurs in (a binder in a `dyn` type)
        let Ok(Ok(l)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.layout())) else { return Value::Null };
        let s = l.shape();
        let offs = |f: &FieldsShape| -> Value {
            match f {
                FieldsShape::Arbitrary { offsets } => json!(offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>()),
                FieldsShape::Array { stride, count } => json!({"stride": stride.bytes(), "count": count}),
                _ => Value::Null,
            }
        };
        let vs = match &s.variants {
            VariantsShape::Single { index } => json!({"single": index.to_index()}),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => json!({
                "tag": format!("{:?}", tag),
                "tag_size": match tag { rustc_public::abi::Scalar::Initialized{value,..} => value.size(&rustc_public::target::MachineInfo::target()).bytes(), rustc_public::abi::Scalar::Union{value} => value.size(&rustc_public::target::MachineInfo::target()).bytes() },
                "enc": serde_json::to_value(tag_encoding).unwrap_or(Value::Null),
                "tag_field": tag_field,
                "variants": variants.iter().map(|v| serde_json::to_value(v).unwrap_or(Value::Null)).collect::<Vec<_>>(),
            }),
            _ => Value::Null,
        };
        json!({"size": s.size.bytes(), "offs": offs(&s.fields), "vs": vs})
    }
    fn ty_desc(&mut self, t: Ty) -> Value {
        let k = t.kind();
        let TyKind::RigidTy(r) = k else { return json!({"k": "other", "s": format!("{:?}", k)}) };
        match r {
            RigidTy::Bool => json!({"k": "bool"}),
            RigidTy::Char => json!({"k": "char"}),
            RigidTy::Int(i) => json!({"k": "int", "w": i.num_bytes() * 8, "s": true, "n": format!("{:?}", i)}),
            RigidTy::Uint(i) => json!({"k": "int", "w": i.num_bytes() * 8, "s": false, "n": format!("{:?}", i)}),
            RigidTy::Float(_) => json!({"k": "float"}),
            RigidTy::Str => json!({"k": "str"}),
            RigidTy::Never => json!({"k": "never"}),
            RigidTy::Array(e, n) => json!({"k": "array", "e": self.ty(e), "n": n.eval_target_usize().ok(), "l": self.layout(t)}),
            RigidTy::Slice(e) => json!({"k": "slice", "e": self.ty(e)}),
            RigidTy::RawPtr(e, _) => json!({"k": "ptr", "e": self.ty(e), "l": self.layout(t)}),
            RigidTy::Ref(_, e, _) => json!({"k": "ref", "e": self.ty(e), "l": self.layout(t)}),
            RigidTy::Tuple(ts) => {
                let v: Vec<_> = ts.iter().map(|x| self.ty(*x)).collect();
                json!({"k": "tuple", "f": v, "l": self.layout(t)})
            }
            RigidTy::FnDef(d, a) => {
                let callee = Instance::resolve(d, &a).ok().map(|i| dname(self.redirect(i).def.def_id()));
                json!({"k": "fndef", "n": dname(d.def_id()), "a": self.gargs(&a), "r": callee})
            }
            RigidTy::FnPtr(_) => json!({"k": "fnptr"}),
            RigidTy::Closure(d, a) => json!({"k": "closure", "n": dname(d.def_id()), "a": self.gargs(&a)}),
            RigidTy::Coroutine(d, a) => json!({"k": "coroutine", "n": dname(d.def_id()), "a": self.gargs(&a)}),
            RigidTy::Dynamic(p, _) => json!({"k": "dyn", "s": format!("{:?}", p.first().map(|x| &x.value))}),
            RigidTy::Adt(d, a) => {
                let name = dname(d.def_id());
                let isunion = matches!(d.kind(), AdtKind::Union);
                let mut vs = vec![];
                let opaque = self.stop.iter().any(|p| p.strip_prefix("ty:").map_or(false, |q| glob(q, &name)));
                if !opaque {
                    for v in d.variants() {
                        let fs: Vec<Value> = v.fields().iter().map(|f| json!([f.name.to_string(), self.ty(f.ty_with_args(&a))])).collect();
                        let dv = if matches!(d.kind(), AdtKind::Enum) { Some(d.discriminant_for_variant(v.idx()).val.to_string()) } else { None };
                        vs.push(json!({"n": v.name().to_string(), "f": fs, "d": dv}));
                    }
                }
                json!({"k": "adt", "n": name, "a": self.gargs(&a), "en": matches!(d.kind(), AdtKind::Enum), "union": isunion, "v": vs, "l": self.layout(t), "opaque": opaque})
            }
            o => json!({"k": "other", "s": format!("{:?}", o)}),
        }
    }
    fn alloc_val(&mut self, a: &Allocation) -> Value {
        let mut hex = String::new();
        for b in &a.bytes {
            match b {
                Some(x) => hex.push_str(&format!("{:02x}", x)),
                None => hex.push_str("__"),
            }
        }
        let mut ptrs = vec![];
        for (off, p) in &a.provenance.ptrs {
            self.alloc(p.0);
            ptrs.push(json!([off, p.0.to_index()]));
        }
        json!({"b": hex, "p": ptrs})
    }
    fn alloc(&mut self, id: AllocId) {
        if self.allocs.contains_key(&id) {
            return;
        }
        self.allocs.insert(id, ());
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => json!({"k": "mem", "m": self.alloc_val(&a)}),
            GlobalAlloc::Function(i) => json!({"k": "fn", "i": self.inst(i)}),
            GlobalAlloc::Static(s) => json!({"k": "static", "n": self.static_(s)}),
            GlobalAlloc::VTable(t, _) => json!({"k": "vtable", "t": self.ty(t)}),
            GlobalAlloc::TypeId { ty } => json!({"k": "typeid", "t": self.ty(ty)}),
        };
        self.alloc_out.insert(id.to_index().to_string(), v);
    }
    fn static_(&mut self, s: StaticDef) -> String {
        let n = dname(s.def_id());
        if !self.statics.contains_key(&n) {
            self.statics.insert(n.clone(), 0);
            let t = self.ty(s.ty());
            let init = match s.eval_initializer() {
                Ok(a) => self.alloc_val(&a),
                Err(_) => Value::Null,
            };
            self.static_out.insert(n.clone(), json!({"t": t, "init": init}));
        }
        n
    }
    fn stopped(&self, i: Instance) -> bool {
        let n = dname(i.def.def_id());
        // the last matching line decides; '!pattern' lines force a body to be exported
        let mut st = false;
        for p in &self.stop {
            if let Some(q) = p.strip_prefix('!') {
                if glob(q, &n) {
                    st = false;
                }
            } else if glob(p, &n) {
                st = true;
            }
        }
        st
    }
    fn function(&mut self, i: Instance) -> Value {
        let name = i.name().to_string();
        let def = dname(i.def.def_id());
        let args = self.gargs(&i.args());
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let mut v = json!({"name": name, "def": def, "args": args, "kind": kind, "foreign": i.is_foreign_item()});
        if matches!(i.kind, InstanceKind::Virtual { .. }) || i.is_foreign_item() || matches!(i.kind, InstanceKind::LlvmIntrinsic) {
            return v;
        }
        if (i.kind == InstanceKind::Intrinsic && !i.has_body()) || i.kind == InstanceKind::Intrinsic || (i.kind != InstanceKind::Shim && self.stopped(i)) {
            v["stop"] = json!(true);
            let sig = i.ty().kind().fn_sig().map(|s| s.skip_binder());
            if let Some(s) = sig {
                let t: Vec<_> = s.inputs_and_output.iter().map(|t| self.ty(*t)).collect();
                v["sig"] = json!(t);
            }
            return v;
        }
        let Some(body) = i.body() else { return v };
        v["ck"] = json!(match i.ty().kind() {
            TyKind::RigidTy(RigidTy::Closure(..)) => "closure",
            TyKind::RigidTy(RigidTy::Coroutine(..)) => "coroutine",
            _ => "fn",
        });
        v["argc"] = json!(body.arg_locals().len());
        v["spread"] = json!(body.spread_arg());
        let ls: Vec<_> = body.locals().iter().map(|l| self.ty(l.ty)).collect();
        v["locals"] = json!(ls);
        let sp = body.span;
        v["span"] = json!(sp.diagnostic());
        let locals: Vec<LocalDecl> = body.locals().to_vec();
        let mut names = Map::new();
        for d in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value {
                if p.projection.is_empty() {
                    names.insert(p.local.to_string(), json!(d.name.to_string()));
                }
            }
        }
        v["names"] = Value::Object(names);
        let blocks: Vec<Value> = body.blocks.iter().map(|b| self.block(b, &locals)).collect();
        v["blocks"] = json!(blocks);
        v
    }
    fn block(&mut self, b: &BasicBlock, locals: &[LocalDecl]) -> Value {
        let mut st = vec![];
        for s in &b.statements {
            match &s.kind {
                StatementKind::Assign(p, r) => {
                    let (a, b) = (self.place(p), self.rvalue(r, locals));
                    st.push(json!(["=", a, b]));
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let p = self.place(place);
                    st.push(json!(["sd", p, variant_index.to_index()]));
                }
                StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => st.push(json!(["unsup", format!("{:?}", s.kind)])),
                _ => {}
            }
        }
        let line = b.terminator.source_info.span.get_lines().start_line;
        json!({"s": st, "t": self.term(&b.terminator.kind, locals), "l": line})
    }
    fn uw(u: &UnwindAction) -> Value {
        match u {
            UnwindAction::Cleanup(b) => json!(b),
            _ => Value::Null,
        }
    }
    fn term(&mut self, t: &TerminatorKind, locals: &[LocalDecl]) -> Value {
        match t {
            TerminatorKind::Goto { target } => json!(["goto", target]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let br: Vec<Value> = targets.branches().map(|(v, b)| json!([v.to_string(), b])).collect();
                let t = discr.ty(locals).unwrap();
                let t = self.ty(t);
                json!(["switch", self.op(discr), t, br, targets.otherwise()])
            }
            TerminatorKind::Resume => json!(["resume"]),
            TerminatorKind::Abort => json!(["abort"]),
            TerminatorKind::Return => json!(["return"]),
            TerminatorKind::Unreachable => json!(["unreachable"]),
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(place);
                let t = place.ty(locals).unwrap();
                json!(["drop", p, target, self.ty(t)])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let a: Vec<Value> = args.iter().map(|x| self.op(x)).collect();
                let at: Vec<Value> = args.iter().map(|x| { let t = x.ty(locals).unwrap(); json!(self.ty(t)) }).collect();
                let d = self.place(destination);
                let dt = destination.ty(locals).unwrap();
                let dt = self.ty(dt);
                let ft = func.ty(locals).unwrap();
                match ft.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(def, ga)) => {
                        let c = match Instance::resolve(def, &ga) {
                            Ok(i) => json!(self.inst(i)),
                            Err(_) => json!({"unresolved": dname(def.def_id())}),
                        };
                        json!(["call", c, a, d, target, dt, at])
                    }
                    _ => json!(["callptr", self.op(func), a, d, target, dt, at]),
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                    o => o.description().map(|s| s.to_string()).unwrap_or_else(|_| "assert".into()),
                };
                json!(["assert", self.op(cond), expected, m, target])
            }
            TerminatorKind::InlineAsm { .. } => json!(["unsup", "asm"]),
        }
    }
    fn place(&mut self, p: &Place) -> Value {
        if p.projection.is_empty() {
            return json!(p.local);
        }
        let pr: Vec<Value> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["ci", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["d", v.to_index()]),
                ProjectionElem::OpaqueCast(_) => json!(["oc"]),
            })
            .collect();
        json!([p.local, pr])
    }
    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["cp", self.place(p)]),
            Operand::Move(p) => json!(["mv", self.place(p)]),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => json!(["rc", format!("{:?}", r)]),
        }
    }
    fn konst(&mut self, c: &MirConst) -> Value {
        let t = self.ty(c.ty());
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.ty().kind() {
            let i = Instance::resolve(d, &a).ok().map(|i| self.inst(i));
            return json!(["kf", i, t]);
        }
        match c.kind() {
            ConstantKind::Allocated(a) => json!(["k", self.alloc_val(a), t]),
            ConstantKind::ZeroSized => json!(["kz", t]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => json!(["k", self.alloc_val(a), t]),
                TyConstKind::ZSTValue(_) => json!(["kz", t]),
                o => json!(["kunsup", format!("{:?}", o)]),
            },
            o => json!(["kunsup", format!("{:?}", o)]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> Value {
        macro_rules! oty {
            ($o:expr) => {{
                let t = $o.ty(locals).unwrap();
                self.ty(t)
            }};
        }
        match r {
            Rvalue::Use(o, ..) => json!(["use", self.op(o)]),
            Rvalue::CopyForDeref(p) => json!(["use", json!(["cp", self.place(p)])]),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => json!(["ref", self.place(p)]),
            Rvalue::BinaryOp(op, a, b) => json!(["bin", format!("{:?}", op), self.op(a), self.op(b), oty!(a), oty!(b)]),
            Rvalue::CheckedBinaryOp(op, a, b) => json!(["cbin", format!("{:?}", op), self.op(a), self.op(b), oty!(a), oty!(b)]),
            Rvalue::UnaryOp(op, a) => json!(["un", format!("{:?}", op), self.op(a), oty!(a)]),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(locals).unwrap();
                let mut extra = Value::Null;
                if let CastKind::PointerCoercion(pc) = k {
                    match pc {
                        PointerCoercion::ReifyFnPointer(_) => {
                            if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ot.kind() {
                                extra = json!(Instance::resolve_for_fn_ptr(d, &a).ok().map(|i| self.inst(i)));
                            }
                        }
                        PointerCoercion::ClosureFnPointer(_) => {
                            if let TyKind::RigidTy(RigidTy::Closure(d, a)) = ot.kind() {
                                extra = json!(Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok().map(|i| self.inst(i)));
                            }
                        }
                        _ => {}
                    }
                }
                json!(["cast", format!("{:?}", k), self.op(o), oty!(o), self.ty(*t), extra])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).unwrap();
                let rt = r.ty(locals).unwrap();
                json!(["discr", self.place(p), self.ty(t), self.ty(rt)])
            }
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["rep", self.op(o), n.eval_target_usize().ok()]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<Value> = ops.iter().map(|o| self.op(o)).collect();
                let t = r.ty(locals).unwrap();
                let kk = match k {
                    AggregateKind::Array(_) => json!(["array"]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(_, v, _, _, active) => json!(["adt", v.to_index(), active]),
                    AggregateKind::Closure(..) => json!(["closure"]),
                    AggregateKind::Coroutine(..) => json!(["coroutine"]),
                    AggregateKind::CoroutineClosure(..) => json!(["cclosure"]),
                    AggregateKind::RawPtr(..) => json!(["rawptr"]),
                };
                json!(["agg", kk, v, self.ty(t)])
            }
            Rvalue::ThreadLocalRef(_) => json!(["unsup", "tls"]),
        }
    }
}
