//! Exports the type-checked, monomorphised MIR reachable from a harness crate.
//!
//! Run by cargo as RUSTC_WORKSPACE_WRAPPER.  Only inspects the program; nothing
//! of the analysed crates is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

/// Everything gathered during the export
#[derive(Default)]
struct Dump {
    fns: BTreeMap<String, Value>,
    types: BTreeMap<usize, Value>,
    allocs: BTreeMap<usize, Value>,
    statics: BTreeMap<String, Value>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    /// Function paths which are never descended into
    stop: Vec<String>,
    /// Function path => model function in harness
    models: HashMap<String, FnDef>,
    ty_done: HashSet<usize>,
    alloc_done: HashSet<usize>,
}

fn ty_id(t: Ty) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}

fn alloc_id(a: AllocId) -> usize {
    serde_json::to_value(a).unwrap().as_u64().unwrap() as usize
}

/// Get def path with generics removed
fn path_of(name: &str) -> String {
    let mut out = String::new();
    let mut depth = 0;
    let b: Vec<char> = name.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '<' {
            // leading "<X as Trait>" is kept
            if out.is_empty() || depth > 0 && out.ends_with('\u{1}') {
                out.push(c);
                i += 1;
                continue;
            }
            let mut d = 0;
            while i < b.len() {
                if b[i] == '<' {
                    d += 1;
                } else if b[i] == '>' && (i == 0 || b[i - 1] != '-') {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                i += 1;
            }
            while out.ends_with(':') {
                out.pop();
            }
            depth = 0;
            i += 1;
            continue;
        }
        out.push(c);
        i += 1;
    }
    out
}

impl Dump {
    fn want_ty(&mut self, t: Ty) -> usize {
        let id = ty_id(t);
        if !self.ty_done.insert(id) {
            return id;
        }
        let mut o = Map::new();
        o.insert("s".into(), json!(format!("{t}")));
        let k = t.kind();
        match k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => {
                    o.insert("k".into(), json!("bool"));
                }
                RigidTy::Char => {
                    o.insert("k".into(), json!("char"));
                }
                RigidTy::Int(i) => {
                    o.insert("k".into(), json!("int"));
                    o.insert("bits".into(), json!(i.num_bytes() * 8));
                }
                RigidTy::Uint(i) => {
                    o.insert("k".into(), json!("uint"));
                    o.insert("bits".into(), json!(i.num_bytes() * 8));
                }
                RigidTy::Float(f) => {
                    o.insert("k".into(), json!("float"));
                    o.insert("f".into(), json!(format!("{f:?}")));
                }
                RigidTy::Adt(def, args) => {
                    o.insert("k".into(), json!("adt"));
                    o.insert("name".into(), json!(def.name()));
                    o.insert("kind".into(), json!(format!("{:?}", def.kind())));
                    let a: Vec<usize> = args
                        .0
                        .iter()
                        .filter_map(|g| g.ty().copied())
                        .map(|t| self.want_ty(t))
                        .collect();
                    o.insert("args".into(), json!(a));
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val
                        } else {
                            0
                        };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(json!({"n": f.name, "t": self.want_ty(ft)}));
                        }
                        vs.push(json!({"n": v.name(), "d": d.to_string(), "f": fs}));
                    }
                    o.insert("variants".into(), json!(vs));
                }
                RigidTy::Foreign(_) => {
                    o.insert("k".into(), json!("foreign"));
                }
                RigidTy::Str => {
                    o.insert("k".into(), json!("str"));
                }
                RigidTy::Array(e, n) => {
                    o.insert("k".into(), json!("array"));
                    o.insert("e".into(), json!(self.want_ty(e)));
                    o.insert("n".into(), json!(n.eval_target_usize().ok()));
                }
                RigidTy::Pat(e, _) => {
                    o.insert("k".into(), json!("pat"));
                    o.insert("e".into(), json!(self.want_ty(e)));
                }
                RigidTy::Slice(e) => {
                    o.insert("k".into(), json!("slice"));
                    o.insert("e".into(), json!(self.want_ty(e)));
                }
                RigidTy::RawPtr(e, _) => {
                    o.insert("k".into(), json!("ptr"));
                    o.insert("e".into(), json!(self.want_ty(e)));
                }
                RigidTy::Ref(_, e, m) => {
                    o.insert("k".into(), json!("ref"));
                    o.insert("e".into(), json!(self.want_ty(e)));
                    o.insert("mut".into(), json!(m == Mutability::Mut));
                }
                RigidTy::FnDef(def, args) => {
                    o.insert("k".into(), json!("fndef"));
                    o.insert("callee".into(), self.callee(def, &args));
                }
                RigidTy::FnPtr(_) => {
                    o.insert("k".into(), json!("fnptr"));
                }
                RigidTy::Closure(def, args) => {
                    o.insert("k".into(), json!("closure"));
                    o.insert("name".into(), json!(def.name()));
                    let n = args.0.len();
                    if let Some(t) = args.0.get(n - 1).and_then(|g| g.ty().copied()) {
                        o.insert("up".into(), json!(self.want_ty(t)));
                    }
                    let inst = Instance::resolve_closure(def, &args, ClosureKind::FnOnce)
                        .or_else(|_| Instance::resolve_closure(def, &args, ClosureKind::FnMut))
                        .or_else(|_| Instance::resolve_closure(def, &args, ClosureKind::Fn));
                    let _ = inst;
                }
                RigidTy::Dynamic(..) => {
                    o.insert("k".into(), json!("dyn"));
                }
                RigidTy::Never => {
                    o.insert("k".into(), json!("never"));
                }
                RigidTy::Tuple(ts) => {
                    o.insert("k".into(), json!("tuple"));
                    let a: Vec<usize> = ts.iter().map(|t| self.want_ty(*t)).collect();
                    o.insert("e".into(), json!(a));
                }
                _ => {
                    o.insert("k".into(), json!("other"));
                }
            },
            _ => {
                o.insert("k".into(), json!("unresolved"));
            }
        }
        if let Some(k) = o.get("k").and_then(|k| k.as_str())
            && matches!(k, "adt" | "tuple" | "closure" | "array" | "ref" | "ptr")
        {
            let l = self.layout_of(t);
            o.insert("layout".into(), l);
        }
        self.types.insert(id, Value::Object(o));
        id
    }

    fn stopped(&self, path: &str) -> bool {
        self.stop.iter().any(|s| {
            if let Some(p) = s.strip_suffix('*') {
                path.starts_with(p)
            } else {
                path == s
            }
        })
    }

    fn want_inst(&mut self, inst: Instance) -> Value {
        let key = inst.mangled_name();
        let name = inst.name();
        let def = inst.def.name();
        let path = path_of(&def);
        let kind = format!("{:?}", inst.kind);
        let stop = self.stopped(&path) || self.stopped(&path_of(&name));
        let virt = matches!(inst.kind, InstanceKind::Virtual { .. });
        if !stop && !virt && self.seen.insert(key.clone()) {
            self.queue.push_back(inst);
        }
        let args: Vec<usize> = inst
            .args()
            .0
            .iter()
            .filter_map(|g| g.ty().copied())
            .map(|t| self.want_ty(t))
            .collect();
        let cargs: Vec<Value> = inst
            .args()
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Const(c) => Some(json!(c.eval_target_usize().ok())),
                _ => None,
            })
            .collect();
        json!({"key": key, "name": name, "path": path, "kind": kind,
               "intr": inst.intrinsic_name(), "targs": args, "cargs": cargs,
               "stop": stop, "virt": virt, "empty": inst.is_empty_shim()})
    }

    fn callee(&mut self, def: FnDef, args: &GenericArgs) -> Value {
        let raw = def.name();
        let path = path_of(&raw);
        let targs: Vec<usize> = args
            .0
            .iter()
            .filter_map(|g| g.ty().copied())
            .map(|t| self.want_ty(t))
            .collect();
        if let Some(m) = self.models.get(&path).copied() {
            if let Ok(inst) = Instance::resolve(m, args) {
                let mut v = self.want_inst(inst);
                v["orig"] = json!(path);
                v["otargs"] = json!(targs);
                return v;
            }
        }
        match Instance::resolve(def, args) {
            Ok(inst) => {
                // model for the resolved item?
                let rpath = path_of(&inst.def.name());
                if let Some(m) = self.models.get(&rpath).copied()
                    && rpath != path
                    && let Ok(mi) = Instance::resolve(m, &inst.args())
                {
                    let mut v = self.want_inst(mi);
                    v["orig"] = json!(path);
                    v["otargs"] = json!(targs);
                    return v;
                }
                let mut v = self.want_inst(inst);
                v["orig"] = json!(path);
                v["otargs"] = json!(targs);
                v
            }
            Err(_) => json!({"key": Value::Null, "name": raw, "path": path, "orig": path, "otargs": targs}),
        }
    }

    fn want_alloc(&mut self, a: AllocId) {
        let id = alloc_id(a);
        if !self.alloc_done.insert(id) {
            return;
        }
        let v = match GlobalAlloc::from(a) {
            GlobalAlloc::Function(i) => json!({"k": "fn", "callee": self.want_inst(i)}),
            GlobalAlloc::VTable(t, _) => json!({"k": "vtable", "ty": self.want_ty(t)}),
            GlobalAlloc::Static(s) => {
                let ty = self.want_ty(s.ty());
                match s.eval_initializer() {
                    Ok(al) => {
                        let v = self.alloc_json(&al);
                        json!({"k": "static", "name": s.name(), "ty": ty, "alloc": v})
                    }
                    Err(_) => json!({"k": "static", "name": s.name(), "ty": ty}),
                }
            }
            GlobalAlloc::Memory(al) => {
                let v = self.alloc_json(&al);
                json!({"k": "mem", "alloc": v})
            }
            GlobalAlloc::TypeId { .. } => json!({"k": "typeid"}),
        };
        self.allocs.insert(id, v);
    }

    fn alloc_json(&mut self, al: &Allocation) -> Value {
        for (_, p) in &al.provenance.ptrs {
            self.want_alloc(p.0);
        }
        let prov: Vec<(usize, usize)> = al
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| (*o, alloc_id(p.0)))
            .collect();
        let bytes: Vec<i32> = al.bytes.iter().map(|b| b.map_or(-1, |b| b as i32)).collect();
        json!({"bytes": bytes, "prov": prov})
    }

    fn layout_of(&mut self, t: Ty) -> Value {
        match t.layout() {
            Ok(l) => {
                let s = l.shape();
                let f = serde_json::to_value(&s.fields).unwrap_or(Value::Null);
                let v = serde_json::to_value(&s.variants).unwrap_or(Value::Null);
                json!({"size": s.size.bytes(), "fields": f, "variants": v})
            }
            Err(_) => Value::Null,
        }
    }

    fn run(&mut self) {
        while let Some(inst) = self.queue.pop_front() {
            let key = inst.mangled_name();
            let Some(body) = inst.body() else {
                continue;
            };
            let v = self.body_json(&inst, &body);
            self.fns.insert(key, v);
        }
    }

    fn line(&self, span: &Span) -> usize {
        span.get_lines().start_line
    }

    fn body_json(&mut self, inst: &Instance, body: &Body) -> Value {
        let mut col = Collect::default();
        col.visit_body(body);
        for t in &col.tys {
            self.want_ty(*t);
        }
        let mut consts = Map::new();
        for c in &col.consts {
            let id = format!("{}", serde_json::to_value(c.id).unwrap());
            let ty = self.want_ty(c.ty());
            let v = match c.kind() {
                ConstantKind::Allocated(al) => {
                    let a = self.alloc_json(al);
                    let l = self.layout_of(c.ty());
                    json!({"k": "alloc", "ty": ty, "alloc": a, "layout": l})
                }
                ConstantKind::ZeroSized => json!({"k": "zst", "ty": ty}),
                ConstantKind::Ty(tc) => {
                    json!({"k": "ty", "ty": ty, "v": tc.eval_target_usize().ok()})
                }
                k => json!({"k": "other", "ty": ty, "d": format!("{k:?}")}),
            };
            consts.insert(id, v);
        }
        let mut blocks = vec![];
        for bb in &body.blocks {
            let mut stmts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::StorageLive(_)
                    | StatementKind::Nop
                    | StatementKind::ConstEvalCounter
                    | StatementKind::FakeRead(..)
                    | StatementKind::AscribeUserType { .. }
                    | StatementKind::PlaceMention(_)
                    | StatementKind::Coverage(_) => continue,
                    _ => (),
                }
                let v = serde_json::to_value(&s.kind).unwrap();
                stmts.push(json!([v, self.line(&s.source_info.span)]));
            }
            let mut t = serde_json::to_value(&bb.terminator.kind).unwrap();
            let line = self.line(&bb.terminator.source_info.span);
            let mut extra = Value::Null;
            match &bb.terminator.kind {
                TerminatorKind::Call { func, .. } => {
                    if let Ok(ft) = func.ty(body.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = ft.kind() {
                            extra = self.callee(def, &args);
                        }
                    }
                    if let Some(o) = t.get_mut("Call").and_then(|c| c.as_object_mut()) {
                        o.remove("unwind");
                        o.insert("callee".into(), extra);
                    }
                }
                TerminatorKind::Drop { place, .. } => {
                    if let Ok(pt) = place.ty(body.locals()) {
                        let di = Instance::resolve_drop_in_place(pt);
                        let tid = self.want_ty(pt);
                        let c = if di.is_empty_shim() {
                            Value::Null
                        } else {
                            self.want_inst(di)
                        };
                        if let Some(o) = t.get_mut("Drop").and_then(|c| c.as_object_mut()) {
                            o.remove("unwind");
                            o.insert("ty".into(), json!(tid));
                            o.insert("callee".into(), c);
                        }
                    }
                }
                _ => (),
            }
            let file = short_file(&bb.terminator.source_info.span.get_filename().to_string());
            blocks.push(json!({"s": stmts, "t": t, "l": line, "f": file}));
        }
        let locals: Vec<usize> = body.locals().iter().map(|l| self.want_ty(l.ty)).collect();
        let mut names = Map::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.to_string(), json!(v.name));
                }
            }
        }
        let targs: Vec<usize> = inst
            .args()
            .0
            .iter()
            .filter_map(|g| g.ty().copied())
            .map(|t| self.want_ty(t))
            .collect();
        json!({
            "name": inst.name(),
            "path": path_of(&inst.def.name()),
            "krate": inst.def.krate().name,
            "nargs": body.arg_locals().len(),
            "spread": body.spread_arg(),
            "file": short_file(&body.span.get_filename().to_string()),
            "line": self.line(&body.span),
            "end_line": body.span.get_lines().end_line,
            "locals": locals,
            "names": names,
            "consts": consts,
            "blocks": blocks,
            "targs": targs,
        })
    }
}

fn short_file(f: &str) -> String {
    f.rsplit_once("\"").map_or(f, |_| f).to_string()
}

#[derive(Default)]
struct Collect {
    tys: Vec<Ty>,
    consts: Vec<MirConst>,
}

impl MirVisitor for Collect {
    fn visit_ty(&mut self, ty: &Ty, _: Location) {
        self.tys.push(*ty);
    }
    fn visit_mir_const(&mut self, c: &MirConst, loc: Location) {
        self.consts.push(c.clone());
        self.super_mir_const(c, loc);
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the rustc path as first argument
    args.remove(1);
    let krate = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate);
    let r = if is_target {
        rustc_public::run!(&args, export)
    } else {
        rustc_public::run!(&args, || ControlFlow::<(), ()>::Continue(()))
    };
    match r {
        Ok(_) => (),
        Err(rustc_public::CompilerError::Skipped) => (),
        Err(e) => {
            eprintln!("mirdump: {e:?}");
            std::process::exit(1);
        }
    }
}

fn export() -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let stop = std::env::var("MIRDUMP_STOP").unwrap_or_default();
    let mut d = Dump::default();
    if let Ok(s) = std::fs::read_to_string(&stop) {
        d.stop = s
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .collect();
    }
    let mut roots = Map::new();
    let local = rustc_public::local_crate();
    let fns = local.fn_defs();
    // model functions: `models::NAME` documented in models.txt as "path NAME"
    let mut by_name: HashMap<String, FnDef> = HashMap::new();
    for f in &fns {
        let n = path_of(&f.name());
        by_name.insert(n, *f);
    }
    let mfile = std::env::var("MIRDUMP_MODELS").unwrap_or_default();
    if let Ok(s) = std::fs::read_to_string(&mfile) {
        for l in s.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if let Some((a, b)) = l.rsplit_once(' ') {
                let b = format!("{}::models::{}", local.name, b.trim());
                match by_name.get(&b) {
                    Some(f) => {
                        d.models.insert(a.trim().to_string(), *f);
                    }
                    None => {
                        eprintln!("mirdump: no model {b}");
                        std::process::exit(1);
                    }
                }
            }
        }
    }
    for f in &fns {
        let n = path_of(&f.name());
        let last = n.rsplit("::").next().unwrap();
        if n.contains("::roots::") && last.starts_with("r_") || last.starts_with("m_") {
            match Instance::resolve(*f, &GenericArgs(vec![])) {
                Ok(inst) => {
                    let v = d.want_inst(inst);
                    roots.insert(n, v);
                }
                Err(_) => continue,
            }
        }
    }
    d.run();
    let o = json!({
        "roots": roots,
        "fns": d.fns,
        "types": d.types,
        "allocs": d.allocs,
        "statics": d.statics,
    });
    let f = std::fs::File::create(&out).expect("create");
    serde_json::to_writer(std::io::BufWriter::new(f), &o).expect("write");
    ControlFlow::Continue(())
}
