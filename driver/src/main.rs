//! `rustc_private` driver: dumps the resolved program (MIR bodies with the
//! callee of every call resolved by the type checker) reachable from a set of
//! roots as one JSON document.
//!
//! It is used as RUSTC_WORKSPACE_WRAPPER for the entry-point crate in
//! /verif/entry.  Nothing of the analysed crate is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, BinOp, Body, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind, UnOp,
};
use rustc_middle::ty::print::{PrintTraitRefExt, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if std::env::var("MIRDUMP_CRATE").map(|c| c != name).unwrap_or(false) {
            return Compilation::Continue;
        }
        let mut d = Dump::new(tcx);
        d.run();
        std::fs::write(out, d.finish()).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc first.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    if !args.iter().any(|a| a == "--sysroot") {
        if let Ok(s) = std::env::var("MIRDUMP_SYSROOT") {
            args.push("--sysroot".into());
            args.push(s);
        }
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x);
    }
    o.push(']');
    o
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum BodyKey<'tcx> {
    Inst(Instance<'tcx>, TypingEnv<'tcx>),
    Promoted(Instance<'tcx>, TypingEnv<'tcx>, u32),
    Const(DefId, GenericArgsRef<'tcx>, TypingEnv<'tcx>),
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<BodyKey<'tcx>, usize>,
    queue: Vec<(BodyKey<'tcx>, usize)>,
    bodies: Vec<(usize, String)>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<Option<String>>,
    adts: HashMap<DefId, String>,
    calls: HashMap<(TypingEnv<'tcx>, Ty<'tcx>), String>,
    call_rows: Vec<String>,
    envs: HashMap<TypingEnv<'tcx>, usize>,
    roots: Vec<String>,
    impls: Vec<String>,
    apis: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump {
            tcx,
            ids: HashMap::new(),
            queue: vec![],
            bodies: vec![],
            tys: HashMap::new(),
            ty_json: vec![],
            adts: HashMap::new(),
            calls: HashMap::new(),
            call_rows: vec![],
            envs: HashMap::new(),
            roots: vec![],
            impls: vec![],
            apis: vec![],
        }
    }

    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()))
    }
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn target_crate() -> String {
        std::env::var("MIRDUMP_TARGET").unwrap_or_else(|_| "wot_td".into())
    }

    /// May we look inside this function?
    fn descend(&self, d: DefId) -> bool {
        let k = self.krate(d);
        if k == Self::target_crate() || d.is_local() {
            return true;
        }
        let p = self.path(d);
        if std::env::var("MIRDUMP_OPEN").unwrap_or_default().split(',').any(|x| x == k) {
            return true;
        }
        if k == "core" {
            const OK: &[&str] = &[
                "core::option::",
                "core::result::",
                "core::convert::",
                "core::ops::",
                "core::bool::",
                "core::cmp::",
                "core::default::",
                "core::tuple::",
                "core::clone::",
                "<core::option::",
                "<core::result::",
                "<core::ops::",
                "<core::cmp::",
                "<T as core::convert::",
                "<core::cell::",
            ];
            if OK.iter().any(|x| p.starts_with(x)) {
                return true;
            }
            // trait impls in core printed as `<X as core::..>::m`
            const TR: &[&str] = &[
                " as core::cmp::",
                " as core::ops::",
                " as core::convert::",
                " as core::default::Default>",
                " as core::clone::Clone>",
            ];
            if p.starts_with('<') && TR.iter().any(|x| p.contains(x)) {
                return true;
            }
            if p.contains("::is_nan") || p.contains("core::num::") {
                return true;
            }
            return false;
        }
        if k == "serde_json" {
            return p.contains("serde_json::value::from") || p.contains("as core::convert::From<");
        }
        false
    }

    fn env(&mut self, e: TypingEnv<'tcx>) -> usize {
        let n = self.envs.len();
        *self.envs.entry(e).or_insert(n)
    }

    fn body_id(&mut self, k: BodyKey<'tcx>) -> usize {
        if let Some(&i) = self.ids.get(&k) {
            return i;
        }
        let i = self.ids.len();
        self.ids.insert(k, i);
        self.queue.push((k, i));
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&def.did()) {
            return;
        }
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        self.adts.insert(def.did(), String::new());
        let mut vs = vec![];
        let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(i, d)| (i, d.val)).collect()
        } else {
            vec![]
        };
        for (vi, v) in def.variants().iter_enumerated() {
            let d = discrs.iter().find(|(i, _)| *i == vi).map(|(_, d)| d.to_string()).unwrap_or("0".into());
            let fs = arr(v.fields.iter().map(|f| esc(f.name.as_str())));
            let fts = arr(v.fields.iter().map(|f| {
                let t = self.tcx.type_of(f.did).instantiate_identity();
                let s = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t.skip_normalization())));
                esc(&s)
            }));
            let vis = arr(v.fields.iter().map(|f| if f.vis.is_public() { "1".to_string() } else { "0".to_string() }));
            vs.push(format!(
                "{{\"name\":{},\"discr\":\"{}\",\"fields\":{},\"tys\":{},\"pub\":{}}}",
                esc(v.name.as_str()),
                d,
                fs,
                fts,
                vis
            ));
        }
        let s = format!(
            "{{\"path\":{},\"krate\":{},\"kind\":\"{}\",\"variants\":{}}}",
            esc(&self.path(def.did())),
            esc(&self.krate(def.did())),
            kind,
            arr(vs)
        );
        self.adts.insert(def.did(), s);
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) {
            self.callable(t, env);
            return i;
        }
        let i = self.ty_json.len();
        self.ty_json.push(None);
        self.tys.insert(t, i);
        let s = esc(&self.tystr(t));
        let j = match *t.kind() {
            ty::Adt(def, args) => {
                self.adt(def);
                let a: Vec<String> = args.types().map(|t| self.ty(t, env).to_string()).collect();
                format!("{{\"k\":\"adt\",\"s\":{},\"d\":{},\"a\":{}}}", s, esc(&self.path(def.did())), arr(a))
            }
            ty::Ref(_, t, m) => {
                format!("{{\"k\":\"ref\",\"s\":{},\"t\":{},\"m\":{}}}", s, self.ty(t, env), m.is_mut())
            }
            ty::RawPtr(t, m) => {
                format!("{{\"k\":\"ptr\",\"s\":{},\"t\":{},\"m\":{}}}", s, self.ty(t, env), m.is_mut())
            }
            ty::Slice(t) => format!("{{\"k\":\"slice\",\"s\":{},\"t\":{}}}", s, self.ty(t, env)),
            ty::Array(t, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"s\":{},\"t\":{},\"n\":{}}}", s, self.ty(t, env), n)
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t, env).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"s\":{},\"a\":{}}}", s, arr(a))
            }
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"s\":{},\"d\":{}}}", s, esc(&self.path(d))),
            ty::FnDef(d, args) => {
                let _ = args;
                format!("{{\"k\":\"fndef\",\"s\":{},\"d\":{}}}", s, esc(&self.path(d)))
            }
            ty::Param(_) => format!("{{\"k\":\"param\",\"s\":{}}}", s),
            ty::Alias(..) => format!("{{\"k\":\"alias\",\"s\":{}}}", s),
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":{}}}", s),
            ty::Char => format!("{{\"k\":\"char\",\"s\":{}}}", s),
            ty::Int(_) => format!("{{\"k\":\"int\",\"s\":{}}}", s),
            ty::Uint(_) => format!("{{\"k\":\"uint\",\"s\":{}}}", s),
            ty::Float(_) => format!("{{\"k\":\"float\",\"s\":{}}}", s),
            ty::Str => format!("{{\"k\":\"str\",\"s\":{}}}", s),
            ty::Never => format!("{{\"k\":\"never\",\"s\":{}}}", s),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", s),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", s),
        };
        self.ty_json[i] = Some(j);
        self.callable(t, env);
        i
    }

    /// For closure and fn-item types record which body a call through a value
    /// of that type runs.
    fn callable(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) {
        if self.calls.contains_key(&(env, t)) {
            return;
        }
        match *t.kind() {
            ty::Closure(d, args) => {
                self.calls.insert((env, t), String::new());
                let inst = Instance::new_raw(d, args);
                let id = self.body_id(BodyKey::Inst(inst, env));
                let e = self.env(env);
                let ti = self.tys[&t];
                let kind = format!("{:?}", args.as_closure().kind_ty().to_opt_closure_kind());
                self.call_rows
                    .push(format!("{{\"env\":{},\"ty\":{},\"kind\":{},\"b\":{}}}", e, ti, esc(&kind), id));
            }
            ty::FnDef(d, args) => {
                self.calls.insert((env, t), String::new());
                let args = args.no_bound_vars().expect("bound vars in fn item");
                let c = self.callee(d, args, env);
                let e = self.env(env);
                let ti = self.tys[&t];
                let sig = t.fn_sig(self.tcx);
                let sig = self.tcx.instantiate_bound_regions_with_erased(sig);
                let sig = self
                    .tcx
                    .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig))
                    .unwrap_or(sig);
                let ats: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t, env).to_string()).collect();
                let dt = self.ty(sig.output(), env);
                self.call_rows.push(format!(
                    "{{\"env\":{},\"ty\":{},\"kind\":\"fn\",\"c\":{},\"at\":[{}],\"dt\":{}}}",
                    e,
                    ti,
                    c,
                    ats.join(","),
                    dt
                ));
            }
            _ => {}
        }
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        let mut fields = vec![];
        // how the source names it
        let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        fields.push(format!("\"n\":{}", esc(&self.path(d))));
        let targs: Vec<String> = args.types().map(|t| self.ty(t, env).to_string()).collect();
        fields.push(format!("\"a\":{}", arr(targs)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            fields.push(format!("\"t\":{}", esc(&self.path(tr))));
            fields.push(format!("\"m\":{}", esc(tcx.item_name(d).as_str())));
        }
        if is_ctor {
            let p = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(p) {
                DefKind::Variant => {
                    let a = tcx.adt_def(tcx.parent(p));
                    (a, a.variant_index_with_id(p).as_u32())
                }
                _ => (tcx.adt_def(p), 0),
            };
            self.adt(adt);
            fields.push(format!("\"ctor\":[{},{}]", esc(&self.path(adt.did())), vi));
            return format!("{{{}}}", fields.join(","));
        }
        if tcx.intrinsic(d).is_some() {
            fields.push("\"intrinsic\":1".into());
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                fields.push(format!("\"p\":{}", esc(&self.path(rd))));
                if let Some(imp) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(imp).instantiate_identity();
                    let _ = st;
                    if tcx.impl_is_of_trait(imp) {
                        fields.push("\"ti\":1".into());
                    }
                }
                let rargs: Vec<String> = inst.args.types().map(|t| self.ty(t, env).to_string()).collect();
                fields.push(format!("\"ra\":{}", arr(rargs)));
                match inst.def {
                    InstanceKind::Item(rd) => {
                        if matches!(tcx.def_kind(rd), DefKind::Ctor(..)) {
                            let p = tcx.parent(rd);
                            let (adt, vi) = match tcx.def_kind(p) {
                                DefKind::Variant => {
                                    let a = tcx.adt_def(tcx.parent(p));
                                    (a, a.variant_index_with_id(p).as_u32())
                                }
                                _ => (tcx.adt_def(p), 0),
                            };
                            self.adt(adt);
                            fields.push(format!("\"ctor\":[{},{}]", esc(&self.path(adt.did())), vi));
                        } else if tcx.trait_of_assoc(rd).is_some() && tcx.defaultness(rd).has_value() == false {
                            fields.push("\"unres\":1".into());
                        } else if self.descend(rd) && tcx.is_mir_available(rd) && tcx.intrinsic(rd).is_none() {
                            let id = self.body_id(BodyKey::Inst(inst, env));
                            fields.push(format!("\"b\":{}", id));
                        }
                        if tcx.is_closure_like(rd) {
                            fields.push("\"closure\":1".into());
                        }
                    }
                    InstanceKind::Shim(k) => {
                        let name = format!("{:?}", k);
                        let name = name.split(|c| c == '(' || c == '{' || c == ' ').next().unwrap_or("").to_string();
                        fields.push(format!("\"shim\":{}", esc(&name)));
                        if name == "ClosureOnce" || name == "FnPtr" {
                            let id = self.body_id(BodyKey::Inst(inst, env));
                            fields.push(format!("\"b\":{}", id));
                        }
                    }
                    InstanceKind::Intrinsic(_) => fields.push("\"intrinsic\":1".into()),
                    InstanceKind::Virtual(..) => fields.push("\"virtual\":1".into()),
                    _ => {}
                }
            }
            _ => fields.push("\"unres\":1".into()),
        }
        format!("{{{}}}", fields.join(","))
    }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, v: T) -> T {
        inst.try_instantiate_mir_and_normalize_erasing_regions(self.tcx, env, EarlyBinder::bind(self.tcx, v))
            .unwrap_or(v)
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool => v.try_to_bool().map(|b| format!("[\"bool\",{}]", b)),
            ty::Int(_) | ty::Uint(_) => {
                let s = v.try_to_scalar_int()?;
                let size = s.size();
                let bits = s.to_bits(size);
                let val: String = if matches!(t.kind(), ty::Int(_)) {
                    format!("{}", size.sign_extend(bits))
                } else {
                    format!("{}", bits)
                };
                Some(format!("[\"int\",\"{}\",{}]", val, esc(&t.to_string())))
            }
            ty::Char => {
                let s = v.try_to_scalar_int()?;
                Some(format!("[\"char\",{}]", s.to_bits(s.size())))
            }
            ty::Float(_) => {
                let s = v.try_to_scalar_int()?;
                let bits = s.to_bits(s.size());
                let f = if s.size().bytes() == 4 {
                    f32::from_bits(bits as u32) as f64
                } else {
                    f64::from_bits(bits as u64)
                };
                Some(format!("[\"float\",\"{:?}\"]", f))
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                let s = String::from_utf8_lossy(b).to_string();
                Some(format!("[\"str\",{}]", esc(&s)))
            }
            ty::FnDef(..) => {
                let i = self.ty(t, env);
                Some(format!("[\"fn\",{}]", i))
            }
            ty::Closure(..) => {
                let i = self.ty(t, env);
                Some(format!("[\"zst\",{}]", i))
            }
            ty::Tuple(ts) if ts.is_empty() => Some("[\"unit\"]".into()),
            ty::Adt(def, _) => {
                self.adt(*def);
                if let ConstValue::ZeroSized = v {
                    let i = self.ty(t, env);
                    return Some(format!("[\"zst\",{}]", i));
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let vi = d.variant.map(|v| v.as_u32()).unwrap_or(0);
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.const_val(*fv, *ft, env).unwrap_or_else(|| "[\"?\",\"field\"]".into()));
                }
                Some(format!("[\"adt\",{},{},{}]", esc(&self.path(def.did())), vi, arr(fs)))
            }
            ty::Tuple(_) | ty::Array(..) => {
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.const_val(*fv, *ft, env).unwrap_or_else(|| "[\"?\",\"field\"]".into()));
                }
                let k = if matches!(t.kind(), ty::Tuple(_)) { "tuple" } else { "array" };
                Some(format!("[\"{}\",{}]", k, arr(fs)))
            }
            _ => {
                if let ConstValue::ZeroSized = v {
                    let i = self.ty(t, env);
                    return Some(format!("[\"zst\",{}]", i));
                }
                None
            }
        }
    }

    fn constant(&mut self, c: Const<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let c = self.norm(inst, env, c);
        let t = c.ty();
        match c {
            Const::Val(v, t) => {
                if let Some(s) = self.const_val(v, t, env) {
                    return s;
                }
                let s = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", c)));
                format!("[\"?\",{}]", esc(&s))
            }
            Const::Unevaluated(uv, _) => {
                if let Some(p) = uv.promoted {
                    let i = Instance::new_raw(uv.def, uv.args);
                    let id = self.body_id(BodyKey::Promoted(i, env, p.as_u32()));
                    return format!("[\"promoted\",{}]", id);
                }
                let simple = matches!(
                    t.kind(),
                    ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_)
                ) || matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                if simple {
                    if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                        if let Some(s) = self.const_val(v, t, env) {
                            return s;
                        }
                    }
                }
                // resolve associated constants through the instance machinery
                let (def, args) = match Instance::try_resolve(tcx, env, uv.def, uv.args) {
                    Ok(Some(i)) => (i.def_id(), i.args),
                    _ => (uv.def, uv.args),
                };
                if (self.krate(def) == Self::target_crate() || def.is_local()) && tcx.is_mir_available(def) {
                    let id = self.body_id(BodyKey::Const(def, args, env));
                    return format!("[\"constfn\",{},{}]", id, esc(&self.path(def)));
                }
                if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                    if let Some(s) = self.const_val(v, t, env) {
                        return s;
                    }
                }
                // a list of names
                if matches!(t.kind(), ty::Ref(_, i, _) if matches!(i.kind(), ty::Slice(e) if matches!(e.kind(), ty::Ref(_, s, _) if s.is_str()))) {
                    if let Ok(Ok(tree)) = tcx.const_eval_resolve_for_typeck(env, uv.shrink(tcx), rustc_span::DUMMY_SP) {
                        let v = ty::Value { ty: t, valtree: tree };
                        let mut fs = vec![];
                        for e in v.to_branch().iter() {
                            if let Some(b) = e.try_to_value().and_then(|x| x.try_to_raw_bytes(tcx)) {
                                fs.push(format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b))));
                            } else {
                                fs.push("[\"?\",\"name\"]".into());
                            }
                        }
                        return format!("[\"array\",{}]", arr(fs));
                    }
                }
                format!("[\"named\",{}]", esc(&self.path(def)))
            }
            Const::Ty(t, k) => {
                if let Some(v) = k.try_to_value() {
                    if let Some(n) = v.try_to_target_usize(tcx) {
                        return format!("[\"int\",\"{}\",{}]", n, esc(&t.to_string()));
                    }
                }
                if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                    if let Some(s) = self.const_val(v, t, env) {
                        return s;
                    }
                }
                let s = format!("{:?}", k);
                format!("[\"?\",{}]", esc(&s))
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
        let mut pr = vec![];
        let mut cur = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let base = self.norm(inst, env, cur.ty);
            cur = cur.projection_ty(self.tcx, e);
            let res = self.norm(inst, env, cur.ty);
            let bt = self.ty(base, env);
            let rt = self.ty(res, env);
            pr.push(match e {
                // ["*", isbox, result]
                ProjectionElem::Deref => format!("[\"*\",{},{},{}]", base.is_box() as u8, rt, bt),
                // ["f", index, result, boxy, base]
                ProjectionElem::Field(f, _) => {
                    format!("[\"f\",{},{},{},{}]", f.as_u32(), rt, base.is_box() as u8, bt)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{},{}]", l.as_u32(), rt),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{},{}]", offset, min_length, from_end, rt)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{},{}]", v.as_u32(), bt),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(pr))
    }

    fn operand(&mut self, o: &Operand<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>, b: &Body<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, inst, env, b)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, inst, env, b)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c.const_, inst, env)),
            Operand::RuntimeChecks(_) => "[\"k\",[\"bool\",false]]".to_string(),
        }
    }

    fn binop(o: BinOp) -> String {
        format!("{:?}", o)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>, b: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, inst, env, b)),
            Rvalue::Repeat(o, n) => {
                let n = self.norm(inst, env, *n);
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, inst, env, b), n)
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, mir::BorrowKind::Mut { .. }), self.place(p, inst, env, b))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",[\"c\",{}],{}]", self.place(p, inst, env, b), m.is_mut()),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p, inst, env, b)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let t = self.norm(inst, env, *t);
                let ti = self.ty(t, env);
                let k = format!("{:?}", k);
                let from = self.norm(inst, env, o.ty(b, self.tcx));
                let fi = self.ty(from, env);
                format!("[\"cast\",{},{},{},{}]", esc(&k), self.operand(o, inst, env, b), ti, fi)
            }
            Rvalue::BinaryOp(o, ab) => {
                let t = self.norm(inst, env, ab.0.ty(b, self.tcx));
                let ti = self.ty(t, env);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    esc(&Self::binop(*o)),
                    self.operand(&ab.0, inst, env, b),
                    self.operand(&ab.1, inst, env, b),
                    ti
                )
            }
            Rvalue::UnaryOp(o, a) => {
                let s = match o {
                    UnOp::Not => "Not",
                    UnOp::Neg => "Neg",
                    UnOp::PtrMetadata => "PtrMetadata",
                };
                let t = self.norm(inst, env, a.ty(b, self.tcx));
                let ti = self.ty(t, env);
                format!("[\"un\",\"{}\",{},{}]", s, self.operand(a, inst, env, b), ti)
            }
            Rvalue::Discriminant(p) => {
                let t = self.norm(inst, env, p.ty(b, self.tcx).ty);
                let ti = self.ty(t, env);
                format!("[\"discr\",{},{}]", self.place(p, inst, env, b), ti)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, inst, env, b)),
            Rvalue::Aggregate(k, ops) => {
                let os = arr(ops.iter().map(|o| self.operand(o, inst, env, b)).collect::<Vec<_>>());
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",null,0,{}]", os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{}]", os),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let _ = af;
                        format!("[\"agg\",\"adt\",{},{},{}]", esc(&self.path(*d)), vi.as_u32(), os)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.norm(inst, env, t);
                        let ti = self.ty(t, env);
                        format!("[\"agg\",\"closure\",{},0,{}]", ti, os)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",null,0,{}]", os),
                    _ => format!("[\"agg\",\"other\",null,0,{}]", os),
                }
            }
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, inst, env, b)),
        }
    }

    fn bb(b: BasicBlock) -> String {
        b.as_u32().to_string()
    }

    fn dump_body(&mut self, key: BodyKey<'tcx>, id: usize) {
        let tcx = self.tcx;
        let (inst, env, body, kind): (Instance<'tcx>, TypingEnv<'tcx>, Body<'tcx>, &str) = match key {
            BodyKey::Inst(i, e) => {
                let b = match i.def {
                    InstanceKind::Item(d) if !tcx.is_mir_available(d) => return,
                    d => tcx.instance_mir(d).clone(),
                };
                let k = match i.def {
                    InstanceKind::Item(d) if tcx.is_closure_like(d) => "closure",
                    InstanceKind::Item(_) => "item",
                    _ => "shim",
                };
                (i, e, b, k)
            }
            BodyKey::Promoted(i, e, n) => {
                let ps = tcx.promoted_mir(i.def_id());
                (i, e, ps[mir::Promoted::from_u32(n)].clone(), "promoted")
            }
            BodyKey::Const(d, args, e) => {
                let i = Instance::new_raw(d, args);
                (i, e, tcx.mir_for_ctfe(d).clone(), "const")
            }
        };
        let _ = &env;
        let d = inst.def_id();
        let mut o = String::new();
        let pth = self.path(d);
        let full = with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, inst.args)));
        let eid = self.env(env);
        let locals: Vec<String> = body
            .local_decls
            .iter()
            .map(|l| {
                let t = self.norm(inst, env, l.ty);
                self.ty(t, env).to_string()
            })
            .collect();
        let targs: Vec<String> = inst.args.types().map(|t| self.ty(t, env).to_string()).collect();
        let _ = write!(
            o,
            "{{\"id\":{},\"path\":{},\"full\":{},\"kind\":\"{}\",\"krate\":{},\"env\":{},\"argc\":{},\"spread\":{},\"span\":{},\"targs\":{},\"locals\":{},",
            id,
            esc(&pth),
            esc(&full),
            kind,
            esc(&self.krate(d)),
            eid,
            body.arg_count,
            body.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into()),
            esc(&self.span(body.span)),
            arr(targs),
            arr(locals)
        );
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let _ = write!(o, "\"impl\":{},", esc(&self.path(imp)));
        }
        o.push_str("\"blocks\":[");
        for (n, data) in body.basic_blocks.iter().enumerate() {
            if n > 0 {
                o.push(',');
            }
            if data.is_cleanup {
                o.push_str("null");
                continue;
            }
            let mut sts = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0, inst, env, &body);
                        let r = self.rvalue(&pr.1, inst, env, &body);
                        sts.push(format!("[\"=\",{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, inst, env, &body);
                        sts.push(format!("[\"sd\",{},{}]", p, variant_index.as_u32()));
                    }
                    StatementKind::Intrinsic(_) => sts.push("[\"intr\"]".into()),
                    _ => {}
                }
            }
            let term = data.terminator();
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", Self::bb(*target)),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs = arr(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())));
                    let t = self.norm(inst, env, discr.ty(&body, tcx));
                    let ti = self.ty(t, env);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr, inst, env, &body),
                        vs,
                        Self::bb(targets.otherwise()),
                        ti
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place, inst, env, &body), Self::bb(*target))
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let ft = self.norm(inst, env, func.ty(&body, tcx));
                    let c = match *ft.kind() {
                        ty::FnDef(d, a) => match a.no_bound_vars() {
                            Some(a) => self.callee(d, a, env),
                            None => "{\"n\":\"?bound\",\"unres\":1,\"a\":[]}".into(),
                        },
                        _ => {
                            let f = self.operand(func, inst, env, &body);
                            format!("{{\"n\":\"?fnptr\",\"a\":[],\"f\":{}}}", f)
                        }
                    };
                    let os = arr(args.iter().map(|a| self.operand(&a.node, inst, env, &body)).collect::<Vec<_>>());
                    let ats = arr(
                        args.iter()
                            .map(|a| {
                                let t = self.norm(inst, env, a.node.ty(&body, tcx));
                                self.ty(t, env).to_string()
                            })
                            .collect::<Vec<_>>(),
                    );
                    let dt = self.norm(inst, env, destination.ty(&body, tcx).ty);
                    let dti = self.ty(dt, env);
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        c,
                        os,
                        self.place(destination, inst, env, &body),
                        target.map(|t| Self::bb(t)).unwrap_or("null".into()),
                        esc(&self.span(*fn_span)),
                        ats,
                        dti
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").to_string();
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond, inst, env, &body),
                        expected,
                        Self::bb(*target),
                        esc(&m),
                        esc(&self.span(term.source_info.span))
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", Self::bb(*real_target)),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", Self::bb(*real_target)),
                k => {
                    let m = format!("{:?}", k);
                    format!("[\"other\",{}]", esc(&m))
                }
            };
            let _ = write!(o, "{{\"s\":{},\"t\":{}}}", arr(sts), t);
        }
        o.push_str("]}");
        self.bodies.push((id, o));
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        // 1. every function of the entry-point crate
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.trait_of_assoc(did).is_some() && !tcx.is_mir_available(did) {
                continue;
            }
            if !tcx.is_mir_available(did) {
                continue;
            }
            self.root(did, "entry", "");
        }
        // 2. every trait impl method of the analysed crate, and its types
        let target = Self::target_crate();
        let krates: Vec<_> = tcx.crates(()).to_vec();
        for k in krates {
            if tcx.crate_name(k).as_str() != target {
                continue;
            }
            let impls: Vec<DefId> = tcx.trait_impls_in_crate(k).to_vec();
            for imp in impls {
                let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_normalization();
                let trp = self.path(tr.def_id);
                let st = tcx.type_of(imp).instantiate_identity().skip_normalization();
                let sts = self.tystr(st);
                let env = TypingEnv::post_analysis(tcx, imp);
                let sti = self.ty(st, env);
                let trs = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path())));
                let mut ms = vec![];
                for m in tcx.associated_item_def_ids(imp) {
                    let m = *m;
                    if !matches!(tcx.def_kind(m), DefKind::AssocFn) || !tcx.is_mir_available(m) {
                        continue;
                    }
                    let r = self.root(m, "impl", &trp);
                    ms.push(format!("[{},{}]", esc(tcx.item_name(m).as_str()), r));
                }
                self.impls.push(format!(
                    "{{\"trait\":{},\"traitref\":{},\"self\":{},\"selfty\":{},\"path\":{},\"span\":{},\"methods\":{}}}",
                    esc(&trp),
                    esc(&trs),
                    esc(&sts),
                    sti,
                    esc(&self.path(imp)),
                    esc(&self.span(tcx.def_span(imp))),
                    arr(ms)
                ));
            }
            // 3. inventory of everything else that has a body (for the effect rules)
            let mut seen = std::collections::HashSet::new();
            self.walk_mod(k.as_def_id(), &mut seen, 0);
        }
        while let Some((k, i)) = self.queue.pop() {
            self.dump_body(k, i);
        }
    }

    fn walk_mod(&mut self, m: DefId, seen: &mut std::collections::HashSet<DefId>, depth: usize) {
        let tcx = self.tcx;
        if depth > 12 || !seen.insert(m) {
            return;
        }
        let children: Vec<_> =
            if m.is_local() { vec![] } else { tcx.module_children(m).iter().map(|c| (c.res, c.vis)).collect() };
        for (res, vis) in children {
            let Some(d) = res.opt_def_id() else { continue };
            if tcx.crate_name(d.krate).as_str() != Self::target_crate() {
                continue;
            }
            match tcx.def_kind(d) {
                DefKind::Mod => self.walk_mod(d, seen, depth + 1),
                DefKind::Fn => {
                    if seen.insert(d) {
                        let r = if tcx.is_mir_available(d) { self.root(d, "free", "") } else { usize::MAX };
                        let _ = r;
                        self.apis.push(format!(
                            "{{\"path\":{},\"of\":\"\",\"pub\":{}}}",
                            esc(&self.path(d)),
                            vis.is_public()
                        ));
                    }
                }
                DefKind::Struct | DefKind::Enum => {
                    if seen.insert(d) {
                        let a = tcx.adt_def(d);
                        self.adt(a);
                        for imp in tcx.inherent_impls(d).iter() {
                            for f in tcx.associated_item_def_ids(*imp) {
                                let f = *f;
                                if !matches!(tcx.def_kind(f), DefKind::AssocFn) {
                                    continue;
                                }
                                if tcx.is_mir_available(f) {
                                    self.root(f, "inherent", "");
                                }
                                self.apis.push(format!(
                                    "{{\"path\":{},\"of\":{},\"pub\":{}}}",
                                    esc(&self.path(f)),
                                    esc(&self.path(d)),
                                    tcx.visibility(f).is_public()
                                ));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn root(&mut self, did: DefId, kind: &str, tr: &str) -> usize {
        let tcx = self.tcx;
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        let env = TypingEnv::post_analysis(tcx, did);
        let inst = Instance::new_raw(did, args);
        let id = self.body_id(BodyKey::Inst(inst, env));
        let sp = self.span(tcx.def_span(did));
        let p = self.path(did);
        self.roots.push(format!(
            "{{\"kind\":{},\"path\":{},\"name\":{},\"trait\":{},\"b\":{},\"span\":{}}}",
            esc(kind),
            esc(&p),
            esc(tcx.item_name(did).as_str()),
            esc(tr),
            id,
            esc(&sp)
        ));
        id
    }

    fn finish(self) -> String {
        let mut o = String::from("{\n\"types\":[\n");
        for (i, t) in self.ty_json.iter().enumerate() {
            if i > 0 {
                o.push_str(",\n");
            }
            o.push_str(t.as_deref().unwrap_or("null"));
        }
        o.push_str("],\n\"adts\":[\n");
        o.push_str(&self.adts.values().cloned().collect::<Vec<_>>().join(",\n"));
        o.push_str("],\n\"callables\":[\n");
        o.push_str(&self.call_rows.join(",\n"));
        o.push_str("],\n\"roots\":[\n");
        o.push_str(&self.roots.join(",\n"));
        o.push_str("],\n\"impls\":[\n");
        o.push_str(&self.impls.join(",\n"));
        o.push_str("],\n\"apis\":[\n");
        o.push_str(&self.apis.join(",\n"));
        o.push_str("],\n\"bodies\":[\n");
        let mut bs = self.bodies;
        bs.sort_by_key(|b| b.0);
        o.push_str(&bs.into_iter().map(|b| b.1).collect::<Vec<_>>().join(",\n"));
        o.push_str("]\n}\n");
        o
    }
}
