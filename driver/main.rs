// MIR dumper: runs as RUSTC_WORKSPACE_WRAPPER. For the witness crate it writes, for every root
// function (every `pub fn` of the crate and every derived SlabItem item), the MIR of the root and of
// every function instance reachable from it, with all callees resolved.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

/// External modules whose bodies are worth dumping (pure plumbing the analyser can interpret).
const STD_OK: &[&str] = &[
    "std::iter::", "core::iter::", "std::option::", "core::option::", "std::result::", "core::result::",
    "std::ops::", "core::ops::", "std::cmp::", "core::cmp::", "std::mem::", "core::mem::",
    "std::convert::", "core::convert::", "std::clone::", "core::clone::", "std::default::",
    "core::default::", "std::array::", "core::array::", "core::bool::", "std::tuple::", "core::tuple::",
    "std::borrow::", "core::borrow::", "std::num::", "core::num::", "std::pin::", "core::pin::", "std::future::", "core::future::",
    "std::hint::", "core::hint::", "std::marker::", "core::marker::",
];

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<String, usize>,
    inst_out: Vec<Option<String>>,
    queue: VecDeque<(usize, Instance<'tcx>, Option<Promoted>)>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        // a crate without std prints core's own paths
        match p.strip_prefix("core::") {
            Some(rest) => format!("std::{rest}"),
            None => p,
        }
    }
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let name = with_no_trimmed_paths!(format!("{t}"));
        let tcx = self.tcx;
        let body = match t.kind() {
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Float(_) => {
                format!("\"k\":\"prim\"")
            }
            TyKind::Adt(def, args) => {
                let local = matches!(
                    self.krate(def.did()).as_str(),
                    "crabslab" | "craballoc" | "witness" | "core" | "glam"
                );
                let mut vs = vec![];
                if local {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = def.is_enum().then(|| def.discriminant_for_variant(tcx, vi).val).unwrap_or(0);
                        let fs = list(v.fields.iter().map(|f| {
                            let fty = tcx
                                .try_normalize_erasing_regions(self.env, f.ty(tcx, args))
                                .unwrap_or(f.ty(tcx, args).skip_norm_wip());
                            format!("[{},{}]", esc(f.name.as_str()), self.ty(fty))
                        }));
                        vs.push(format!("[{},\"{}\",{}]", esc(v.name.as_str()), d, fs));
                    }
                }
                let targs: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
                let cargs: Vec<String> = args.consts().map(|c| self.ty_const(c)).collect();
                let mut dtor = "null".to_string();
                if matches!(self.krate(def.did()).as_str(), "crabslab" | "craballoc" | "witness") {
                    if let Some(d) = tcx.adt_destructor(def.did()) {
                        let di = Instance { def: InstanceKind::Item(d.did), args };
                        dtor = self.inst(di, None).to_string();
                    }
                }
                format!(
                    "\"k\":\"adt\",\"path\":{},\"krate\":{},\"enum\":{},\"args\":{},\"cargs\":{},\"variants\":{},\"names\":{},\"dtor\":{}",
                    esc(&self.path(def.did())), esc(&self.krate(def.did())), def.is_enum(), list(targs), list(cargs), list(vs),
                    list(def.variants().iter().filter(|_| !local && def.is_enum()).map(|v| esc(v.name.as_str()))), dtor
                )
            }
            TyKind::Ref(_, inner, m) => {
                format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), self.ty(*inner))
            }
            TyKind::RawPtr(inner, m) => {
                format!("\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), self.ty(*inner))
            }
            TyKind::Slice(inner) => format!("\"k\":\"slice\",\"of\":{}", self.ty(*inner)),
            TyKind::Str => "\"k\":\"str\"".to_string(),
            TyKind::Array(inner, n) => {
                let n = self.ty_const(*n);
                format!("\"k\":\"array\",\"of\":{},\"len\":{}", self.ty(*inner), n)
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|a| self.ty(a).to_string()).collect();
                format!("\"k\":\"tuple\",\"of\":{}", list(v))
            }
            TyKind::Closure(d, a) => {
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"closure\",\"path\":{},\"up\":{}", esc(&self.path(*d)), list(ups))
            }
            TyKind::Coroutine(d, _) => format!("\"k\":\"coroutine\",\"path\":{}", esc(&self.path(*d))),
            TyKind::FnDef(d, _) => format!("\"k\":\"fndef\",\"path\":{}", esc(&self.path(*d))),
            TyKind::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            TyKind::Never => "\"k\":\"never\"".to_string(),
            TyKind::Alias(..) => "\"k\":\"alias\"".to_string(),
            TyKind::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[i] = format!("{{\"n\":{},{}}}", esc(&name), body);
        i
    }
    fn ty_const(&mut self, c: ty::Const<'tcx>) -> String {
        let c = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(c)).unwrap_or(c);
        if let Some(n) = c.try_to_target_usize(self.tcx) {
            return n.to_string();
        }
        esc(&with_no_trimmed_paths!(format!("{c}")))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.source_callsite().lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn wants_body(&self, inst: &Instance<'tcx>) -> bool {
        let d = inst.def_id();
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) => return false,
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => return true,
            InstanceKind::Item(_) => {}
            _ => return false,
        }
        if !tcx.is_mir_available(d) {
            return false;
        }
        let k = self.krate(d);
        if matches!(k.as_str(), "crabslab" | "craballoc" | "witness") {
            return true;
        }
        if k == "core" || k == "std" || k == "alloc" {
            // closures inside plumbing are plumbing
            let mut p = self.path(tcx.typeck_root_def_id(d));
            if let Some(impl_d) = tcx.impl_of_assoc(d) {
                // `<X as Trait>::m` prints with the type first; use the module of the impl
                p = format!("{}", self.path(tcx.parent(impl_d))) + "::";
            }
            let p = p.trim_start_matches('<').to_string();
            return STD_OK.iter().any(|m| p.starts_with(m)) ;
        }
        if k == "glam" {
            return true;
        }
        false
    }

    /// Index of an instance in the output, queueing its body if wanted.
    fn inst(&mut self, inst: Instance<'tcx>, promoted: Option<Promoted>) -> usize {
        let tcx = self.tcx;
        let kind = match inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Shim(ShimKind::Clone(_, t)) => with_no_trimmed_paths!(format!("cloneshim {t}")),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce".to_string(),
            InstanceKind::Virtual(..) => "virtual".into(),
            InstanceKind::Intrinsic(..) => "intrinsic".into(),
            other => format!("{other:?}").split('(').next().unwrap().to_string(),
        };
        let name = with_no_trimmed_paths!(tcx.def_path_str_with_args(inst.def_id(), inst.args));
        let key = format!("{kind}|{name}|{}|{:?}", promoted.map(|p| p.as_u32().to_string()).unwrap_or_default(), inst.def_id());
        if let Some(i) = self.insts.get(&key) {
            return *i;
        }
        let i = self.inst_out.len();
        self.insts.insert(key, i);
        self.inst_out.push(None);
        let path = self.path(inst.def_id());
        let krate = self.krate(inst.def_id());
        let trait_item = tcx
            .trait_item_of(inst.def_id())
            .map(|d| self.path(d))
            .unwrap_or_default();
        let self_ty = tcx.impl_of_assoc(inst.def_id()).map(|d| {
            let t = tcx.type_of(d).instantiate(tcx, tcx.mk_args(&inst.args[..tcx.generics_of(d).count().min(inst.args.len())])).skip_norm_wip();
            self.ty(t).to_string()
        }).unwrap_or("null".into());
        let args: Vec<String> = inst.args.types().map(|a| self.ty(a).to_string()).collect();
        let head = format!(
            "\"key\":{},\"path\":{},\"name\":{},\"krate\":{},\"kind\":{},\"trait_item\":{},\"impl_self\":{},\"args\":{},\"span\":{}",
            i, esc(&path), esc(&name), esc(&krate), esc(&kind), esc(&trait_item), self_ty, list(args), esc(&self.span(tcx.def_span(inst.def_id())))
        );
        let want = promoted.is_some() || self.wants_body(&inst);
        if want {
            self.queue.push_back((i, inst, promoted));
        }
        self.inst_out[i] = Some(head);
        i
    }

    fn run(&mut self) {
        while let Some((i, inst, promoted)) = self.queue.pop_front() {
            let tcx = self.tcx;
            let d = inst.def_id();
            let body: &Body<'tcx> = match promoted {
                Some(p) => &tcx.promoted_mir(d)[p],
                None => match tcx.def_kind(d) {
                    DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. } => tcx.mir_for_ctfe(d),
                    _ => tcx.instance_mir(inst.def),
                },
            };
            let body = inst
                .try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone()));
            let body = match body {
                Ok(b) => b,
                Err(_) => continue,
            };
            let s = self.body(&body);
            let head = self.inst_out[i].take().unwrap();
            self.inst_out[i] = Some(format!("{head},\"body\":{s}"));
        }
    }

    fn body(&mut self, b: &Body<'tcx>) -> String {
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_u32(), esc(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in &bb.statements {
                if let Some(x) = self.stmt(b, s) {
                    ss.push(x);
                }
            }
            let t = self.term(b, bb.terminator());
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", list(ss), t, bb.is_cleanup));
        }
        format!(
            "{{\"argc\":{},\"locals\":{},\"names\":{},\"spread\":{},\"blocks\":{}}}",
            b.arg_count, list(locals), list(names),
            b.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into()),
            list(blocks)
        )
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        TyKind::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => Some(def.variant(v)),
                                None if def.is_enum() => None,
                                None => Some(def.non_enum_variant()),
                            };
                            v.and_then(|v| v.fields.get(f)).map(|f| f.name.to_string()).unwrap_or_default()
                        }
                        _ => f.as_u32().to_string(),
                    };
                    format!("[\"f\",{},{}]", f.as_u32(), esc(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(n, v) => {
                    format!("[\"v\",{},{}]", v.as_u32(), esc(&n.map(|n| n.to_string()).unwrap_or_default()))
                }
                _ => "[\"o\"]".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        format!("[{},{},{}]", p.local.as_u32(), list(out), self.ty(pt.ty))
    }

    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(b, p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(b, p)),
            Operand::Constant(c) => self.constant(b, c),
            #[allow(unreachable_patterns)]
            other => format!("[\"rt\",{}]", esc(&format!("{other:?}"))),
        }
    }

    fn constant(&mut self, _b: &Body<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        match t.kind() {
            TyKind::FnDef(d, args) => {
                let f = self.callee(*d, args.no_bound_vars().unwrap_or(ty::List::empty()));
                return format!("[\"fn\",{tid},{f}]");
            }
            _ => {}
        }
        let is_scalar = matches!(t.kind(), TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Float(_));
        let as_int = |v: ConstValue| -> Option<String> {
            let s = v.try_to_scalar_int()?;
            let bits = s.to_bits_unchecked();
            Some(if let TyKind::Int(_) = t.kind() {
                let sz = s.size();
                format!("{}", sz.sign_extend(bits))
            } else {
                format!("{bits}")
            })
        };
        match c.const_ {
            Const::Val(v, _) => {
                if is_scalar {
                    if let Some(i) = as_int(v) {
                        return format!("[\"int\",{tid},\"{i}\"]");
                    }
                }
                if let ConstValue::ZeroSized = v {
                    return format!("[\"zst\",{tid}]");
                }
                if let Some(i) = as_int(v) {
                    return format!("[\"scalar\",{tid},\"{i}\"]");
                }
                format!("[\"val\",{tid},{}]", esc(&with_no_trimmed_paths!(format!("{}", c.const_))))
            }
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let inst = Instance { def: InstanceKind::Item(u.def), args: u.args };
                    let i = self.inst(inst, Some(p));
                    return format!("[\"body\",{tid},{i}]");
                }
                if is_scalar {
                    if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                        if let Some(i) = as_int(v) {
                            return format!("[\"int\",{tid},\"{i}\"]");
                        }
                    }
                }
                let r = Instance::try_resolve(tcx, self.env, u.def, u.args);
                if let Ok(Some(inst)) = r {
                    if self.const_has_body(inst.def_id()) {
                        let i = self.inst_forced(inst);
                        return format!("[\"body\",{tid},{i}]");
                    }
                }
                let selft = u.args.types().next().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"assoc\",{tid},{},{}]", esc(&self.path(u.def)), selft)
            }
            Const::Ty(_, ct) => {
                let s = self.ty_const(ct);
                format!("[\"tyc\",{tid},{s}]")
            }
        }
    }
    fn const_has_body(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        if d.is_local() || matches!(tcx.def_kind(d), DefKind::AssocConst { .. } | DefKind::Const { .. } | DefKind::AnonConst) || tcx.is_mir_available(d) {
            // a trait's associated const without default has no body
            match tcx.def_kind(d) {
                DefKind::AssocConst { .. } => tcx.impl_of_assoc(d).is_some() || tcx.defaultness(d).has_value(),
                _ => true,
            }
        } else {
            false
        }
    }
    fn inst_forced(&mut self, inst: Instance<'tcx>) -> usize {
        let n = self.inst_out.len();
        let i = self.inst(inst, None);
        if i >= n && !self.queue.iter().any(|(j, _, _)| *j == i) {
            self.queue.push_back((i, inst, None));
        }
        i
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let name = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        let targs: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
        let cargs: Vec<String> = args.consts().map(|c| self.ty_const(c)).collect();
        let mut res = "null".to_string();
        let mut dflt = "null".to_string();
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
            res = self.inst(inst, None).to_string();
            // Iterator consumers: also offer the trait's default body, which is defined by next().
            if tcx.trait_of_assoc(d).is_some() && tcx.defaultness(d).has_value() && inst.def_id() != d {
                let p = path.as_str();
                if p.starts_with("std::iter::Iterator::") || p.starts_with("std::iter::DoubleEndedIterator::") {
                    let di = Instance { def: InstanceKind::Item(d), args };
                    dflt = self.inst(di, None).to_string();
                }
            }
        }
        let model = self.model(&path, args).map(|i| i.to_string()).unwrap_or("null".into());
        format!(
            "{{\"path\":{},\"name\":{},\"krate\":{},\"args\":{},\"cargs\":{},\"inst\":{},\"dflt\":{},\"model\":{model},\"trait\":{}}}",
            esc(&path), esc(&name), esc(&self.krate(d)), list(targs), list(cargs), res, dflt,
            tcx.trait_of_assoc(d).is_some()
        )
    }

    /// The witness crate's model of a standard library function, if there is one.
    fn model(&mut self, path: &str, args: ty::GenericArgsRef<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let adt = |t: Ty<'tcx>| match t.kind() {
            TyKind::Adt(d, a) => Some((self.path(d.did()), *a)),
            _ => None,
        };
        let (name, margs): (String, Vec<ty::GenericArg<'tcx>>) = if let Some(m) = path.strip_prefix("std::iter::Iterator::") {
            (format!("iter_{m}"), args.iter().collect())
        } else if path == "std::iter::FromIterator::from_iter" {
            let (p, a) = adt(args.type_at(0))?;
            let i: ty::GenericArg<'tcx> = args.type_at(2).into();
            match p.as_str() {
                "std::vec::Vec" => ("vec_from_iter".into(), vec![args.type_at(1).into(), i]),
                "std::option::Option" => {
                    let (_, ia) = adt(args.type_at(1))?;
                    ("option_from_iter".into(), vec![ia.type_at(0).into(), a.type_at(0).into(), i])
                }
                "std::result::Result" => {
                    let (_, ia) = adt(args.type_at(1))?;
                    ("result_from_iter".into(), vec![ia.type_at(0).into(), a.type_at(1).into(), a.type_at(0).into(), i])
                }
                _ => return None,
            }
        } else if path == "std::default::Default::default" {
            let (p, a) = adt(args.type_at(0))?;
            let n = match p.as_str() {
                "std::sync::Arc" => "arc_default",
                "std::sync::Mutex" => "mutex_default",
                "std::sync::RwLock" => "rwlock_default",
                _ => return None,
            };
            (n.into(), vec![a.type_at(0).into()])
        } else if path == "std::iter::Extend::extend" && adt(args.type_at(0))?.0 == "std::collections::HashSet" {
            let (_, a) = adt(args.type_at(0))?;
            ("set_extend".into(), vec![a.type_at(0).into(), a.type_at(1).into(), args.type_at(2).into()])
        } else if path == "std::iter::Extend::extend" {
            let (p, a) = adt(args.type_at(0))?;
            if p != "std::vec::Vec" {
                return None;
            }
            let by_ref = args.type_at(1) != a.type_at(0);
            let mut v: Vec<ty::GenericArg<'tcx>> = vec![a.type_at(0).into(), args.type_at(2).into()];
            if by_ref {
                v.insert(0, tcx.lifetimes.re_erased.into());
            }
            (if by_ref { "vec_extend_ref" } else { "vec_extend" }.into(), v)
        } else {
            return None;
        };
        let want = format!("models::{name}");
        let d = tcx.hir_body_owners().map(|l| l.to_def_id()).find(|d| matches!(tcx.def_kind(*d), DefKind::Fn) && self.path(*d) == want)?;
        let args = if tcx.generics_of(d).count() == margs.len() { margs } else { margs.into_iter().filter(|a| a.as_region().is_none()).collect() };
        if tcx.generics_of(d).count() != args.len() {
            return None;
        }
        Some(self.inst(Instance { def: InstanceKind::Item(d), args: tcx.mk_args(&args) }, None))
    }
    fn stmt(&mut self, b: &Body<'tcx>, s: &Statement<'tcx>) -> Option<String> {
        let sp = esc(&self.span(s.source_info.span));
        match &s.kind {
            StatementKind::Assign(x) => {
                let (p, r) = &**x;
                Some(format!("[\"=\",{},{},{}]", self.place(b, p), self.rvalue(b, r), sp))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(format!("[\"disc\",{},{},{}]", self.place(b, place), variant_index.as_u32(), sp))
            }
            StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_u32())),
            StatementKind::StorageLive(l) => Some(format!("[\"live\",{}]", l.as_u32())),
            StatementKind::Intrinsic(i) => Some(format!("[\"intr\",{},{}]", esc(&format!("{i:?}")), sp)),
            _ => None,
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(b, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(b, o), self.ty_const(*n)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(b, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(b, p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, self.tcx);
                let from = self.ty(from);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{k:?}")), self.operand(b, o), from, self.ty(*t))
            }
            Rvalue::BinaryOp(op, x) => {
                let lt = x.0.ty(&b.local_decls, self.tcx);
                let lt = self.ty(lt);
                format!("[\"bin\",{},{},{},{}]", esc(&format!("{op:?}")), self.operand(b, &x.0), self.operand(b, &x.1), lt)
            }
            Rvalue::UnaryOp(op, o) => {
                let lt = o.ty(&b.local_decls, self.tcx);
                let lt = self.ty(lt);
                format!("[\"un\",{},{},{}]", esc(&format!("{op:?}")), self.operand(b, o), lt)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(b, p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(b, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names: Vec<String> = var.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        let t = Ty::new_adt(self.tcx, def, args);
                        format!("[\"adt\",{},{},{},{},{},{}]", esc(&self.path(*d)), v.as_u32(), esc(var.name.as_str()), def.is_enum(), list(names), self.ty(t))
                    }
                    AggregateKind::Closure(d, args) => {
                        format!("[\"closure\",{},{}]", esc(&self.path(*d)), self.closure_inst(*d, args))
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let inst = Instance { def: InstanceKind::Item(*d), args };
                        let i = self.inst(inst, None);
                        format!("[\"coroutine\",{},{}]", esc(&self.path(*d)), i)
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", k, list(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(b, p)),
            other => format!("[\"other\",{}]", esc(&format!("{other:?}"))),
        }
    }
    fn closure_inst(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> usize {
        let inst = Instance { def: InstanceKind::Item(d), args };
        self.inst(inst, None)
    }

    fn term(&mut self, b: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let sp = esc(&self.span(t.source_info.span));
        let tcx = self.tcx;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&b.local_decls, tcx);
                let ty = self.ty(ty);
                let ts: Vec<String> = targets.iter().map(|(v, bb)| format!("[\"{v}\",{}]", bb.as_u32())).collect();
                format!("[\"switch\",{},{},{},{},{}]", self.operand(b, discr), list(ts), targets.otherwise().as_u32(), ty, sp)
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&b.local_decls, tcx).ty;
                let t = self.ty(ty);
                format!("[\"drop\",{},{},{},{}]", self.place(b, place), target.as_u32(), t, sp)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func.constant() {
                    Some(c) => match c.const_.ty().kind() {
                        TyKind::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap_or(ty::List::empty())),
                        _ => "null".into(),
                    },
                    None => "null".into(),
                };
                let fo = if f == "null" { self.operand(b, func) } else { "null".into() };
                let args: Vec<String> = args.iter().map(|a| self.operand(b, &a.node)).collect();
                format!(
                    "[\"call\",{},{},{},{},{},{}]",
                    f, list(args), self.place(b, destination),
                    target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()), sp, fo
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = format!("{msg:?}");
                format!("[\"assert\",{},{},{},{},{}]", self.operand(b, cond), expected, target.as_u32(), esc(&m), sp)
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                format!("[\"yield\",{},{},{}]", self.operand(b, value), resume.as_u32(), self.place(b, resume_arg))
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
            other => format!("[\"other\",{}]", esc(&format!("{other:?}"))),
        }
    }
}

impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        let dir = std::env::var("VERIF_DUMP").expect("VERIF_DUMP");
        std::fs::create_dir_all(&dir).unwrap();
        let mut index = vec![];
        let mut n = 0;
        let mut done = HashSet::new();
        let mut roots: Vec<(String, DefId)> = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::Const { .. } => {}
                _ => continue,
            }
            let name = with_no_trimmed_paths!(tcx.def_path_str(d));
            if !name.starts_with("models::") && !name.starts_with('<') && done.insert(name.clone()) {
                roots.push((name, d));
            }
        }
        for (name, d) in roots {
            let env = TypingEnv::post_analysis(tcx, d);
            let mut dump = Dump {
                tcx, env, tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), inst_out: vec![], queue: VecDeque::new(),
            };
            let inst = Instance { def: InstanceKind::Item(d), args: ty::GenericArgs::identity_for_item(tcx, d) };
            dump.inst_forced(inst);
            dump.run();
            let insts = list(dump.inst_out.iter().map(|s| format!("{{{}}}", s.as_ref().unwrap())));
            let kind = match tcx.def_kind(d) { DefKind::Fn | DefKind::AssocFn => "fn", _ => "const" };
            let text = format!("{{\"root\":{},\"insts\":{},\"types\":{}}}", esc(&name), insts, list(dump.ty_out));
            let file = format!("{n}.json");
            std::fs::write(format!("{dir}/{file}"), text).unwrap();
            index.push(format!("[{},{},{},{}]", esc(&name), esc(kind), esc(&file), esc(&dump_span(tcx, d))));
            n += 1;
        }
        // public API of the crates under analysis, to report what the entry points do not cover
        let mut api = vec![];
        for &cnum in tcx.crates(()) {
            let k = tcx.crate_name(cnum).to_string();
            if k == "crabslab" || k == "craballoc" {
                collect_api(tcx, cnum.as_def_id(), &mut api, &mut HashSet::new());
            }
        }
        api.sort();
        api.dedup();
        let mut items = vec![];
        for &cnum in tcx.crates(()) {
            if tcx.crate_name(cnum).as_str() == "craballoc" {
                collect_items(tcx, cnum.as_def_id(), &mut items, &mut HashSet::new());
                for &imp in tcx.trait_impls_in_crate(cnum) {
                    let tr = tcx.impl_trait_ref(imp).skip_binder();
                    if !tcx.visibility(tr.def_id).is_public() { continue; }
                    for it in tcx.associated_item_def_ids(imp) {
                        if tcx.def_kind(*it) == DefKind::AssocFn { items.push(fn_item(tcx, *it, tr.self_ty())); }
                    }
                }
            }
        }
        items.sort();
        items.dedup();
        std::fs::write(format!("{dir}/api.json"), list(items)).unwrap();
        std::fs::write(format!("{dir}/index.json"), format!("{{\"roots\":{},\"api\":{}}}", list(index), list(api.iter().map(|s| esc(s))))).unwrap();
        rustc_driver_impl::Compilation::Continue
    }
}

fn dump_span(tcx: TyCtxt<'_>, d: DefId) -> String {
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(tcx.def_span(d).source_callsite().lo());
    format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
}

/// The structure of a type.
fn tyj<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, depth: usize) -> String {
    if depth > 12 { return "[\"deep\"]".into(); }
    let r = |t| tyj(tcx, t, depth + 1);
    match t.kind() {
        TyKind::Ref(_, x, m) => format!("[\"ref\",{},{}]", m.is_mut(), r(*x)),
        TyKind::RawPtr(x, m) => format!("[\"ptr\",{},{}]", m.is_mut(), r(*x)),
        TyKind::Adt(d, a) => format!("[\"adt\",{},{}]", esc(&with_no_trimmed_paths!(tcx.def_path_str(d.did()))), list(a.types().map(r))),
        TyKind::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
        TyKind::Slice(x) => format!("[\"slice\",{}]", r(*x)),
        TyKind::Array(x, _) => format!("[\"slice\",{}]", r(*x)),
        TyKind::Tuple(l) => format!("[\"tuple\",{}]", list(l.iter().map(r))),
        TyKind::Alias(..) => {
            let mut b = vec![];
            if let TyKind::Alias(_, al) = t.kind() {
                if let ty::AliasTyKind::Opaque { def_id } = al.kind {
                    for c in tcx.explicit_item_bounds(def_id).skip_binder().iter() {
                        if let Some(p) = c.0.as_trait_clause() { b.push(esc(&with_no_trimmed_paths!(tcx.def_path_str(p.def_id())))); }
                        if let Some(p) = c.0.as_projection_clause() {
                            if let Some(x) = p.skip_binder().term.as_type() { b.push(r(x)); }
                        }
                    }
                }
            }
            format!("[\"alias\",{},{}]", esc(&with_no_trimmed_paths!(format!("{t}"))), list(b))
        }
        _ => format!("[\"other\",{}]", esc(&with_no_trimmed_paths!(format!("{t}")))),
    }
}
fn fn_item<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, own: Ty<'tcx>) -> String {
    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
    let env = TypingEnv::non_body_analysis(tcx, d);
    let norm = |t: Ty<'tcx>| {
        let t = tcx.erase_and_anonymize_regions(t);
        tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    };
    format!("{{\"fn\":{},\"self\":{},\"inputs\":{},\"output\":{},\"unsafe\":{},\"at\":{}}}", esc(&with_no_trimmed_paths!(tcx.def_path_str(d))), tyj(tcx, own, 0),
        list(sig.inputs().iter().map(|t| tyj(tcx, norm(*t), 0))), tyj(tcx, norm(sig.output()), 0), sig.safety() == rustc_hir::Safety::Unsafe, esc(&dump_span(tcx, d)))
}
fn collect_items(tcx: TyCtxt<'_>, m: DefId, out: &mut Vec<String>, seen: &mut HashSet<DefId>) {
    use rustc_hir::def::Res;
    if !seen.insert(m) {
        return;
    }
    for c in tcx.module_children(m) {
        if !c.vis.is_public() { continue; }
        if let Res::Def(kind, d) = c.res {
            if tcx.crate_name(d.krate).as_str() != "craballoc" { continue; }
            match kind {
                DefKind::Mod => collect_items(tcx, d, out, seen),
                DefKind::Fn => out.push(fn_item(tcx, d, tcx.types.unit)),
                DefKind::Static { .. } => out.push(format!("{{\"static\":{},\"ty\":{}}}", esc(&with_no_trimmed_paths!(tcx.def_path_str(d))), tyj(tcx, tcx.type_of(d).instantiate_identity().skip_norm_wip(), 0))),
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    if !seen.insert(d) { continue; }
                    let own = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let def = tcx.adt_def(d);
                    let fields = list(def.all_fields().map(|f| format!("[{},{},{}]", esc(f.name.as_str()), def.is_enum() || f.vis.is_public(), tyj(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip(), 0))));
                    out.push(format!("{{\"type\":{},\"self\":{},\"fields\":{},\"dtor\":{},\"at\":{}}}", esc(&with_no_trimmed_paths!(tcx.def_path_str(d))), tyj(tcx, own, 0), fields, tcx.adt_destructor(d).is_some(), esc(&dump_span(tcx, d))));
                    for imp in tcx.inherent_impls(d) {
                        for it in tcx.associated_item_def_ids(*imp) {
                            if tcx.def_kind(*it) == DefKind::AssocFn && tcx.visibility(*it).is_public() { out.push(fn_item(tcx, *it, own)); }
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

fn collect_api(tcx: TyCtxt<'_>, m: DefId, out: &mut Vec<String>, seen: &mut HashSet<DefId>) {
    use rustc_hir::def::Res;
    if !seen.insert(m) {
        return;
    }
    for c in tcx.module_children(m) {
        if !c.vis.is_public() {
            continue;
        }
        if let Res::Def(kind, d) = c.res {
            let k = tcx.crate_name(d.krate).to_string();
            if k != "crabslab" && k != "craballoc" {
                continue;
            }
            match kind {
                DefKind::Mod => collect_api(tcx, d, out, seen),
                DefKind::Fn => out.push(with_no_trimmed_paths!(tcx.def_path_str(d))),
                DefKind::Struct | DefKind::Enum => {
                    for imp in tcx.inherent_impls(d) {
                        for it in tcx.associated_item_def_ids(*imp) {
                            if tcx.def_kind(*it) == DefKind::AssocFn && tcx.visibility(*it).is_public() {
                                out.push(with_no_trimmed_paths!(tcx.def_path_str(*it)));
                            }
                        }
                    }
                }
                DefKind::Trait => {
                    for it in tcx.associated_item_def_ids(d) {
                        if tcx.def_kind(*it) == DefKind::AssocFn {
                            out.push(with_no_trimmed_paths!(tcx.def_path_str(*it)));
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want = std::env::var("VERIF_CRATE").unwrap_or("witness".into());
    // wrapper mode: argv[1] is the path of rustc
    if name != want || std::env::var("VERIF_DUMP").is_err() {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[1]).args(&args[2..]).exec();
        panic!("cannot run {}: {e}", args[1]);
    }
    args.remove(1);
    for cfg in std::env::var("VERIF_CFG").unwrap_or_default().split_whitespace() {
        args.push("--cfg".into());
        args.push(cfg.to_string());
    }
    rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb))
}
