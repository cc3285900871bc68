//! MIR exporter.  A rustc driver which, for the crates named in VP_CRATES,
//! writes the *monomorphised, resolved* MIR of every function reachable from the
//! crate's own functions as JSON (one file per crate, in VP_OUT).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_forced_trimmed_paths, with_no_trimmed_paths};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv,
};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let wanted = std::env::var("VP_CRATES").unwrap_or_default();
        if wanted.split(',').any(|w| w == name) {
            let out = std::env::var("VP_OUT").expect("VP_OUT");
            let text = export(tcx);
            std::fs::write(format!("{}/{}.json", out, name), text).expect("write export");
        }
        Compilation::Continue
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: Vec<String>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    inst_ix: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<Instance<'tcx>>,
    insts: Vec<String>,
    list: Vec<Instance<'tcx>>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

/// Path that does not depend on re-exports: `crate::mod::item`.
fn rawpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    let mut s = tcx.crate_name(d.krate).to_string();
    for el in tcx.def_path(d).data {
        let _ = write!(s, "::{}", el.as_sym(true));
    }
    s
}

impl<'tcx> Ex<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.ty_ix.insert(t, i);
        let tcx = self.tcx;
        let s = with_no_trimmed_paths!(format!("{}", t));
        let mut o = format!("{{\"s\":{}", esc(&s));
        match t.kind() {
            TyKind::Bool => o.push_str(",\"k\":\"bool\""),
            TyKind::Char => o.push_str(",\"k\":\"char\""),
            TyKind::Int(x) => {
                let _ = write!(o, ",\"k\":\"int\",\"n\":{}", esc(x.name_str()));
            }
            TyKind::Uint(x) => {
                let _ = write!(o, ",\"k\":\"int\",\"n\":{}", esc(x.name_str()));
            }
            TyKind::Float(x) => {
                let _ = write!(o, ",\"k\":\"float\",\"n\":{}", esc(x.name_str()));
            }
            TyKind::Str => o.push_str(",\"k\":\"str\""),
            TyKind::Never => o.push_str(",\"k\":\"never\""),
            TyKind::Ref(_, inner, m) => {
                let x = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ref\",\"t\":{},\"mut\":{}", x, m.is_mut());
            }
            TyKind::RawPtr(inner, m) => {
                let x = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ptr\",\"t\":{},\"mut\":{}", x, m.is_mut());
            }
            TyKind::Slice(inner) => {
                let x = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"slice\",\"t\":{}", x);
            }
            TyKind::Array(inner, n) => {
                let x = self.ty(*inner);
                let n = n.try_to_target_usize(tcx).map(|v| v as i64).unwrap_or(-1);
                let _ = write!(o, ",\"k\":\"array\",\"t\":{},\"len\":{}", x, n);
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"ts\":[{}]", v.join(","));
            }
            TyKind::Closure(d, args) => {
                let up: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t).to_string())
                    .collect();
                let _ = write!(
                    o,
                    ",\"k\":\"closure\",\"def\":{},\"ts\":[{}]",
                    esc(&rawpath(tcx, *d)),
                    up.join(",")
                );
            }
            TyKind::FnDef(d, args) => {
                let p = rawpath(tcx, *d);
                let _ = write!(o, ",\"k\":\"fndef\",\"def\":{}", esc(&p));
                let args = args.no_bound_vars().unwrap();
                let id = self.call_target(*d, args);
                let _ = write!(o, ",\"f\":{}", id);
            }
            TyKind::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            TyKind::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            TyKind::Adt(def, args) => {
                let p = rawpath(tcx, def.did());
                let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let _ = write!(
                    o,
                    ",\"k\":\"adt\",\"p\":{},\"ak\":\"{}\",\"args\":[{}]",
                    esc(&p),
                    kind,
                    targs.join(",")
                );
                // std internals are only needed for the few enums we look into
                let expand = def.did().is_local()
                    || !matches!(
                        tcx.crate_name(def.did().krate).as_str(),
                        "std" | "alloc"
                    );
                if expand && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let dv = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val
                        } else {
                            0
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env, ft)
                                .unwrap_or(ft.skip_norm_wip());
                            let ft = self.ty(ft);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), ft));
                        }
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                            esc(v.name.as_str()),
                            dv as i128,
                            fs.join(",")
                        ));
                    }
                    let _ = write!(o, ",\"vs\":[{}]", vs.join(","));
                }
            }
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        self.tys[i] = o;
        i
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.inst_ix.get(&i) {
            return *x;
        }
        let n = self.list.len();
        self.inst_ix.insert(i, n);
        self.list.push(i);
        self.queue.push_back(i);
        n
    }

    /// Resolve a call to (def, args).  Provided methods of the iterator traits are
    /// taken from the trait itself (not from an overriding impl), so that a single
    /// semantic definition -- in terms of `next` -- is analysed.
    fn call_target(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> i64 {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let tp = rawpath(tcx, tr);
            let n = tcx.item_name(d);
            if (tp == "core::iter::traits::iterator::Iterator"
                || tp == "core::iter::traits::double_ended::DoubleEndedIterator")
                && tcx.defaultness(d).has_value()
                && n.as_str() != "by_ref"
            {
                let i = Instance::new_raw(d, args);
                return self.inst(i) as i64;
            }
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => self.inst(i) as i64,
            _ => -1,
        }
    }

    fn descend(&self, i: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        let d = i.def_id();
        let p = rawpath(tcx, d);
        match i.def {
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) | InstanceKind::LlvmIntrinsic(_) => {
                return false
            }
            InstanceKind::Shim(s) => match s {
                ShimKind::DropGlue(..) => return false,
                ShimKind::Clone(..)
                | ShimKind::ClosureOnce { .. }
                | ShimKind::FnPtr(..)
                | ShimKind::Reify(..) => return true,
                _ => return false,
            },
            InstanceKind::Item(_) => {}
        }
        if tcx.is_foreign_item(d) {
            return false;
        }
        if p.contains("::rules::") || p.contains("as_Parser") {
            return false;
        }
        if d.is_local() {
            return true;
        }
        let k = tcx.crate_name(d.krate);
        if matches!(
            k.as_str(),
            "dot_structures" | "dot_generator" | "into_attr" | "into_attr_derive"
        ) {
            return true;
        }
        const OK: &[&str] = &[
            "core::option::",
            "core::result::",
            "core::ops::function::",
            "core::ops::try_trait::",
            "core::ops::control_flow::",
            "core::convert::",
            "core::iter::",
            "core::bool::",
            "core::cmp::",
            "core::clone::",
            "core::tuple::",
            "core::mem::",
            "core::default::",
            "core::ops::range::",
            "core::ops::deref::",
            "core::borrow::",
        ];
        OK.iter().any(|x| p.starts_with(x)) && tcx.is_mir_available(d)
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        while let Some(i) = self.queue.pop_front() {
            let n = self.inst_ix[&i];
            let d = i.def_id();
            let p = rawpath(tcx, d);
            let mut o = format!("{{\"i\":{},\"p\":{}", n, esc(&p));
            let _ = write!(o, ",\"s\":{}", esc(&with_no_trimmed_paths!(format!("{}", i))));
            let _ = write!(o, ",\"pp\":{}", esc(&path(tcx, d)));
            let ik = match i.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::LlvmIntrinsic(_) => "llvm",
                InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue",
                InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce",
                InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                InstanceKind::Shim(ShimKind::Reify(..)) => "reify",
                _ => "shim",
            };
            let _ = write!(o, ",\"ik\":\"{}\",\"crate\":{}", ik, esc(tcx.crate_name(d.krate).as_str()));
            let targs: Vec<String> = i.args.types().map(|t| self.ty(t).to_string()).collect();
            let _ = write!(o, ",\"targs\":[{}]", targs.join(","));
            let dk = tcx.def_kind(d);
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(
                    o,
                    ",\"trait\":{},\"method\":{},\"intrait\":true",
                    esc(&rawpath(tcx, tr)),
                    esc(tcx.item_name(d).as_str())
                );
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate(tcx, i.args).skip_norm_wip();
                    let st = tcx
                        .try_normalize_erasing_regions(self.env, ty::Unnormalized::dummy(tr.self_ty()))
                        .unwrap_or(tr.self_ty());
                    let st = self.ty(tcx.erase_and_anonymize_regions(st));
                    let ta: Vec<String> = tr
                        .args
                        .types()
                        .map(|t| self.ty(tcx.erase_and_anonymize_regions(t)).to_string())
                        .collect();
                    let _ = write!(
                        o,
                        ",\"trait\":{},\"method\":{},\"self\":{},\"trargs\":[{}]",
                        esc(&rawpath(tcx, tr.def_id)),
                        esc(tcx.item_name(d).as_str()),
                        st,
                        ta.join(",")
                    );
                } else {
                    let st = tcx.type_of(im).instantiate(tcx, i.args).skip_norm_wip();
                    let st = self.ty(tcx.erase_and_anonymize_regions(st));
                    let _ = write!(
                        o,
                        ",\"method\":{},\"self\":{}",
                        esc(tcx.item_name(d).as_str()),
                        st
                    );
                }
            }
            let _ = write!(o, ",\"dk\":{}", esc(&format!("{:?}", dk)));
            if d.is_local() {
                let v = tcx.visibility(d);
                let _ = write!(o, ",\"pub\":{}", v.is_public());
            }
            self.aux(i, &mut o);
            if self.descend(i) {
                let body = tcx.instance_mir(i.def);
                let body = i.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    EarlyBinder::bind(tcx, body.clone()),
                );
                if let Ok(body) = body {
                    o.push_str(",\"body\":");
                    let b = self.body(&body);
                    o.push_str(&b);
                }
            }
            o.push('}');
            while self.insts.len() <= n {
                self.insts.push(String::new());
            }
            self.insts[n] = o;
        }
    }

    fn trait_method(&mut self, trait_path: &str, method: &str, args: Vec<Ty<'tcx>>) -> i64 {
        let tcx = self.tcx;
        for tr in tcx.all_traits_including_private() {
            if rawpath(tcx, tr) == trait_path {
                for it in tcx.associated_items(tr).in_definition_order() {
                    if it.name().as_str() == method {
                        let g = tcx.generics_of(it.def_id);
                        if g.own_counts().types != 0 && g.parent.is_some() {
                            return -1;
                        }
                        // the method may have late/early lifetimes: fill with erased
                        let ga = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            _ => args.get(p.index as usize).copied().unwrap_or(tcx.types.unit).into(),
                        });
                        // does the type implement the trait?
                        return match Instance::try_resolve(tcx, self.env, it.def_id, ga) {
                            Ok(Some(i)) => self.inst(i) as i64,
                            _ => -1,
                        };
                    }
                }
            }
        }
        -1
    }

    /// Instances which a modelled library function will call on its type arguments.
    fn aux(&mut self, i: Instance<'tcx>, o: &mut String) {
        let tcx = self.tcx;
        let p = rawpath(tcx, i.def_id());
        let last = p.rsplit("::").next().unwrap_or("").to_string();
        let tys: Vec<Ty<'tcx>> = i.args.types().collect();
        let mut a: Vec<(&str, i64)> = vec![];
        if p.starts_with("core::fmt::rt::") && last.starts_with("new_") {
            if let Some(t) = tys.get(0) {
                let t = t.peel_refs();
                if last == "new_debug" {
                    a.push(("fmt", self.trait_method("core::fmt::Debug", "fmt", vec![t])));
                } else if last == "new_display" {
                    a.push(("fmt", self.trait_method("core::fmt::Display", "fmt", vec![t])));
                }
            }
        }
        if last == "to_string" {
            if let Some(t) = tys.get(0) {
                let t = t.peel_refs();
                a.push(("fmt", self.trait_method("core::fmt::Display", "fmt", vec![t])));
            }
        }
        if matches!(
            last.as_str(),
            "from_iter" | "extend" | "collect" | "args" | "collect_into" | "envs"
        ) {
            // the last type argument with an IntoIterator impl
            for t in tys.iter().rev() {
                let ii = self.trait_method(
                    "core::iter::traits::collect::IntoIterator",
                    "into_iter",
                    vec![*t],
                );
                if ii >= 0 {
                    let inst = self.list[ii as usize];
                    let sig = inst.ty(tcx, self.env).fn_sig(tcx);
                    let out = tcx.instantiate_bound_regions_with_erased(sig.output());
                    let out = tcx
                        .try_normalize_erasing_regions(self.env, ty::Unnormalized::dummy(out))
                        .unwrap_or(out);
                    let nx =
                        self.trait_method("core::iter::traits::iterator::Iterator", "next", vec![out]);
                    if nx >= 0 {
                        a.push(("into_iter", ii));
                        a.push(("next", nx));
                        let k = self.ty(out);
                        a.push(("iter_ty", k as i64));
                        break;
                    }
                }
            }
        }
        if last == "eq" || last == "ne" || last == "contains" {
            if let Some(t) = tys.get(0) {
                if !matches!(t.kind(), TyKind::Closure(..) | TyKind::FnDef(..) | TyKind::FnPtr(..)) {
                    let t2 = tys.get(1).copied().unwrap_or(*t);
                    a.push(("eq", self.trait_method("core::cmp::PartialEq", "eq", vec![*t, t2])));
                }
            }
        }
        if last == "clone" || last == "to_vec" || last == "to_owned" || last == "cloned" {
            let st = if let Some(t) = tys.get(0) { Some(*t) } else { None };
            if let Some(t) = st {
                a.push(("clone", self.trait_method("core::clone::Clone", "clone", vec![t])));
            }
        }
        if last == "default" || last == "unwrap_or_default" || last == "take" {
            if let Some(t) = tys.get(0) {
                a.push(("default", self.trait_method("core::default::Default", "default", vec![*t])));
            }
        }
        // closures handed to library functions: record how to call them
        let mut fs = vec![];
        for (k, t) in tys.iter().enumerate() {
            let t0 = t.peel_refs();
            match t0.kind() {
                TyKind::Closure(d, args) => {
                    let ci = Instance::new_raw(*d, args);
                    let ci = self.inst(ci);
                    fs.push(format!("[{},{}]", k, ci));
                }
                TyKind::FnDef(d, args) => {
                    let ci = self.call_target(*d, args.no_bound_vars().unwrap());
                    fs.push(format!("[{},{}]", k, ci));
                }
                _ => {}
            }
        }
        if !fs.is_empty() {
            let _ = write!(o, ",\"fns\":[{}]", fs.join(","));
        }
        for (k, v) in a {
            if v >= 0 {
                let _ = write!(o, ",\"aux_{}\":{}", k, v);
            }
        }
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!(
            "{}:{}",
            lo.file.name.prefer_local_unconditionally(),
            lo.line
        )
    }

    fn body(&mut self, b: &Body<'tcx>) -> String {
        let mut o = String::from("{");
        let _ = write!(o, "\"argc\":{},\"span\":{}", b.arg_count, esc(&self.span(b.span)));
        if let Some(sp) = b.spread_arg {
            let _ = write!(o, ",\"spread\":{}", sp.as_usize());
        }
        let ls: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":[{}]", ls.join(","));
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        let _ = write!(o, ",\"names\":[{}]", names.join(","));
        o.push_str(",\"bbs\":[");
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"c\":{},\"s\":[", bb.is_cleanup);
            if !bb.is_cleanup {
                let mut first = true;
                for st in &bb.statements {
                    if let Some(x) = self.stmt(b, st) {
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        o.push_str(&x);
                    }
                }
            }
            o.push_str("],\"t\":");
            let t = if bb.is_cleanup {
                "[\"cleanup\"]".to_string()
            } else {
                self.term(b, bb.terminator())
            };
            o.push_str(&t);
            let _ = write!(o, ",\"l\":{}", esc(&self.span(bb.terminator().source_info.span)));
            o.push('}');
        }
        o.push_str("]}");
        o
    }

    fn place(&mut self, b: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_usize());
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for (i, el) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match el {
                ProjectionElem::Deref => {
                    let isbox = pty.ty.is_box();
                    let _ = write!(o, "[\"*\",{}]", isbox);
                }
                ProjectionElem::Field(f, t) => {
                    let k = self.ty(t);
                    let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), k);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"ix\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, "[\"d\",{}]", v.as_usize());
                }
                _ => o.push_str("[\"?\"]"),
            }
            pty = pty.projection_ty(self.tcx, el);
        }
        o.push_str("]]");
        o
    }

    fn operand(&mut self, b: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(b, *p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(b, *p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let k = self.ty(t);
                let v = self.constant(&c.const_, t);
                format!("[\"c\",{},{}]", k, v)
            }
            _ => "[\"rtcheck\"]".to_string(),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, t: Ty<'tcx>) -> String {
        if let TyKind::FnDef(..) = t.kind() {
            return "[\"zst\"]".into();
        }
        if let Const::Unevaluated(u, _) = c {
            // the promoted constants of a trait's provided method would be looked up in the
            // method of the implementation, which need not have any
            if let Some(p) = u.promoted {
                if self.tcx.promoted_mir(u.def).get(p).is_none() {
                    return "[\"?\"]".into();
                }
                let g = rustc_middle::mir::interpret::GlobalId {
                    instance: Instance::new_raw(u.def, u.args),
                    promoted: Some(p),
                };
                return match self.tcx.const_eval_global_id(self.env, g, rustc_span::DUMMY_SP) {
                    Ok(v) => self.cval(v, t, 0),
                    Err(_) => "[\"?\"]".into(),
                };
            }
        }
        match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => "[\"?\"]".into(),
        }
    }

    fn bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let lo = off as usize;
                let hi = lo + len as usize;
                if hi > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(lo..hi).to_vec())
            }
            _ => None,
        }
    }

    fn bytes_json(&self, v: &[u8]) -> String {
        match std::str::from_utf8(v) {
            Ok(s) => format!("[\"str\",{}]", esc(s)),
            Err(_) => {
                let x: Vec<String> = v.iter().map(|b| b.to_string()).collect();
                format!("[\"bytes\",[{}]]", x.join(","))
            }
        }
    }

    fn ptr_at(
        &self,
        id: rustc_middle::mir::interpret::AllocId,
        off: u64,
    ) -> Option<(rustc_middle::mir::interpret::AllocId, u64)> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let ps = self.tcx.data_layout.pointer_size();
                let prov = a.provenance().ptrs().iter().find(|(o, _)| o.bytes() == off)?;
                let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(
                    off as usize..(off + ps.bytes()) as usize,
                );
                let mut n = 0u64;
                for (i, b) in raw.iter().enumerate() {
                    n |= (*b as u64) << (8 * i);
                }
                Some((prov.1.alloc_id(), n))
            }
            _ => None,
        }
    }

    fn at_ptr(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64, inner: Ty<'tcx>, meta: u64, depth: usize) -> String {
        match inner.kind() {
            TyKind::Str => match self.bytes(id, off, meta) {
                Some(v) => self.bytes_json(&v),
                None => "[\"?\"]".into(),
            },
            TyKind::Slice(e) => {
                if *e == self.tcx.types.u8 {
                    return match self.bytes(id, off, meta) {
                        Some(v) => {
                            let x: Vec<String> = v.iter().map(|b| b.to_string()).collect();
                            format!("[\"bytes\",[{}]]", x.join(","))
                        }
                        None => "[\"?\"]".into(),
                    };
                }
                let at = Ty::new_array(self.tcx, *e, meta);
                let v = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) };
                format!("[\"ref\",{}]", self.cval(v, at, depth + 1))
            }
            TyKind::Array(e, n) if *e == self.tcx.types.u8 => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                match self.bytes(id, off, n) {
                    Some(v) => {
                        let x: Vec<String> = v.iter().map(|b| b.to_string()).collect();
                        format!("[\"bytes\",[{}]]", x.join(","))
                    }
                    None => "[\"?\"]".into(),
                }
            }
            _ => {
                let v = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) };
                format!("[\"ref\",{}]", self.cval(v, inner, depth + 1))
            }
        }
    }

    /// a function pointer in a constant
    fn fn_at(&mut self, id: rustc_middle::mir::interpret::AllocId) -> String {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => format!("[\"fnptr\",{}]", self.inst(instance)),
            _ => "[\"?\"]".into(),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 8 {
            return "[\"?\"]".into();
        }
        let tcx = self.tcx;
        match (v, t.kind()) {
            (ConstValue::ZeroSized, TyKind::FnDef(..)) | (ConstValue::ZeroSized, TyKind::Closure(..)) => {
                "[\"zst\"]".into()
            }
            (ConstValue::Scalar(Scalar::Int(i)), TyKind::Bool) => {
                format!("[\"bool\",{}]", i.to_bits(i.size()) != 0)
            }
            (ConstValue::Scalar(Scalar::Int(i)), TyKind::Char) => {
                format!("[\"char\",{}]", i.to_bits(i.size()))
            }
            (ConstValue::Scalar(Scalar::Int(i)), TyKind::Int(_)) => {
                format!("[\"int\",{}]", i.to_int(i.size()))
            }
            (ConstValue::Scalar(Scalar::Int(i)), TyKind::Uint(_)) => {
                format!("[\"int\",{}]", i.to_bits(i.size()))
            }
            (ConstValue::Scalar(Scalar::Int(i)), TyKind::Float(_)) => {
                let bits = i.to_bits(i.size());
                let f = if i.size().bytes() == 4 {
                    f32::from_bits(bits as u32).to_string()
                } else {
                    f64::from_bits(bits as u64).to_string()
                };
                format!("[\"float\",{}]", esc(&f))
            }
            (ConstValue::Slice { alloc_id, meta }, TyKind::Ref(_, inner, _)) => {
                self.at_ptr(alloc_id, 0, *inner, meta, depth)
            }
            (ConstValue::Scalar(Scalar::Ptr(p, _)), TyKind::Ref(_, inner, _)) => {
                let (prov, off) = p.into_raw_parts();
                self.at_ptr(prov.alloc_id(), off.bytes(), *inner, 0, depth)
            }
            (ConstValue::Indirect { alloc_id, offset }, TyKind::Ref(_, inner, _)) => {
                let ps = tcx.data_layout.pointer_size().bytes();
                match self.ptr_at(alloc_id, offset.bytes()) {
                    Some((id, o2)) => {
                        let meta = match inner.kind() {
                            TyKind::Str | TyKind::Slice(_) => self
                                .bytes(alloc_id, offset.bytes() + ps, ps)
                                .map(|v| {
                                    v.iter().enumerate().fold(0u64, |a, (i, b)| a | (*b as u64) << (8 * i))
                                })
                                .unwrap_or(0),
                            _ => 0,
                        };
                        self.at_ptr(id, o2, *inner, meta, depth)
                    }
                    None => "[\"?\"]".into(),
                }
            }
            (ConstValue::Scalar(Scalar::Ptr(p, _)), TyKind::FnPtr(..)) => {
                let (prov, _) = p.into_raw_parts();
                self.fn_at(prov.alloc_id())
            }
            (ConstValue::Indirect { alloc_id, offset }, TyKind::FnPtr(..)) => {
                match self.ptr_at(alloc_id, offset.bytes()) {
                    Some((id, _)) => self.fn_at(id),
                    None => "[\"?\"]".into(),
                }
            }
            (_, TyKind::Adt(..)) | (_, TyKind::Tuple(..)) | (_, TyKind::Array(..)) => {
                if t.is_adt() {
                    let def = t.ty_adt_def().unwrap();
                    let k = tcx.crate_name(def.did().krate);
                    let p = rawpath(tcx, def.did());
                    if (k.as_str() == "alloc" || k.as_str() == "std") && !p.contains("::Option") {
                        return format!("[\"opaque\",{}]", esc(&format!("{}", t)));
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let fs: Vec<String> =
                            dc.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                        let vi = dc.variant.map(|v| v.as_usize() as i64).unwrap_or(0);
                        format!("[\"agg\",{},[{}]]", vi, fs.join(","))
                    }
                    None => "[\"?\"]".into(),
                }
            }
            (ConstValue::Indirect { alloc_id, offset }, _) if t.is_integral() || t.is_bool() || t.is_char() => {
                let sz = tcx
                    .layout_of(self.env.as_query_input(t))
                    .map(|l| l.size.bytes())
                    .unwrap_or(0);
                match self.bytes(alloc_id, offset.bytes(), sz) {
                    Some(v) => {
                        let n = v.iter().enumerate().fold(0u128, |a, (i, b)| a | (*b as u128) << (8 * i));
                        if t.is_bool() {
                            format!("[\"bool\",{}]", n != 0)
                        } else if t.is_char() {
                            format!("[\"char\",{}]", n)
                        } else {
                            format!("[\"int\",{}]", n)
                        }
                    }
                    None => "[\"?\"]".into(),
                }
            }
            _ => "[\"?\"]".into(),
        }
    }

    fn stmt(&mut self, b: &Body<'tcx>, s: &Statement<'tcx>) -> Option<String> {
        match &s.kind {
            StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                let ps = self.place(b, *p);
                let rs = self.rvalue(b, r);
                Some(format!("[\"=\",{},{},{}]", ps, rs, esc(&self.span(s.source_info.span))))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let ps = self.place(b, **place);
                Some(format!("[\"setd\",{},{}]", ps, variant_index.as_usize()))
            }
            StatementKind::StorageLive(l) => Some(format!("[\"live\",{}]", l.as_usize())),
            StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_usize())),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => None,
                _ => Some("[\"?\"]".into()),
            },
            _ => None,
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(b, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(b, o),
                n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1)
            ),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(b, *p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(b, *p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, self.tcx);
                let f = self.ty(from);
                let tt = self.ty(*t);
                let kk = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PointerCoercion(c, _) => format!("{:?}", c),
                    CastKind::Transmute => "transmute".to_string(),
                    other => format!("{:?}", other),
                };
                format!("[\"cast\",{},{},{},{}]", esc(&kk), self.operand(b, o), f, tt)
            }
            Rvalue::BinaryOp(op, bx) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                op,
                self.operand(b, &bx.0),
                self.operand(b, &bx.1)
            ),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(b, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let k = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(b, *p), k)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(b, o)).collect();
                let h = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self
                            .tcx
                            .try_normalize_erasing_regions(self.env, ty::Unnormalized::dummy(t))
                            .unwrap_or(t);
                        let t = self.tcx.erase_and_anonymize_regions(t);
                        format!("[\"adt\",{},{}]", self.ty(t), v.as_usize())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ci = self.inst(Instance::new_raw(*d, args));
                        format!("[\"closure\",{},{}]", self.ty(t), ci)
                    }
                    _ => "[\"?\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", h, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(b, *p)),
            _ => format!("[\"?\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn term(&mut self, b: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let tcx = self.tcx;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&b.local_decls, tcx);
                let k = self.ty(dt);
                let d = self.operand(b, discr);
                let ts: Vec<String> =
                    targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                format!("[\"switch\",{},{},[{}],{}]", d, k, ts.join(","), targets.otherwise().as_usize())
            }
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(&b.local_decls, tcx).ty;
                let k = self.ty(pt);
                format!("[\"drop\",{},{},{}]", self.place(b, *place), target.as_usize(), k)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(&b.local_decls, tcx);
                let callee = match ft.kind() {
                    TyKind::FnDef(d, ga) => {
                        let ga = ga.no_bound_vars().unwrap();
                        let id = self.call_target(*d, ga);
                        if id < 0 {
                            format!("[\"unresolved\",{}]", esc(&rawpath(tcx, *d)))
                        } else {
                            format!("[\"fn\",{}]", id)
                        }
                    }
                    _ => format!("[\"dyn\",{}]", self.operand(b, func)),
                };
                let av: Vec<String> = args.iter().map(|a| self.operand(b, &a.node)).collect();
                let dt = destination.ty(&b.local_decls, tcx).ty;
                let dk = self.ty(dt);
                format!(
                    "[\"call\",{},[{}],{},{},{}]",
                    callee,
                    av.join(","),
                    self.place(b, *destination),
                    target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                    dk
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                    AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                    AssertKind::DivisionByZero(_) => "div0".to_string(),
                    AssertKind::RemainderByZero(_) => "rem0".to_string(),
                    _ => "other".to_string(),
                };
                format!(
                    "[\"assert\",{},{},{},{}]",
                    self.operand(b, cond),
                    expected,
                    esc(&m),
                    target.as_usize()
                )
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                format!("[\"goto\",{}]", real_target.as_usize())
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                format!("[\"goto\",{}]", real_target.as_usize())
            }
            other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
        }
    }
}

fn export(tcx: TyCtxt<'_>) -> String {
    let mut ex = Ex {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        tys: vec![],
        ty_ix: HashMap::new(),
        inst_ix: HashMap::new(),
        queue: VecDeque::new(),
        insts: vec![],
        list: vec![],
    };
    let mut roots = vec![];
    let mut items = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        let p = rawpath(tcx, d);
        if p.contains("::rules::") {
            continue;
        }
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let g = tcx.generics_of(d);
                if g.requires_monomorphization(tcx) {
                    items.push(format!("[{},\"generic\"]", esc(&p)));
                    continue;
                }
                let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => unreachable!(),
                });
                let id = ex.inst(Instance::new_raw(d, args));
                roots.push(id.to_string());
                let _ = &mut items;
            }
            _ => {}
        }
    }
    ex.run();
    // ADTs of the crate that no function mentions
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            let g = tcx.generics_of(d);
            if !g.requires_monomorphization(tcx) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                ex.ty(t);
            }
        }
    }
    ex.run();
    let _ = with_forced_trimmed_paths!(0);
    format!(
        "{{\"crate\":{},\"roots\":[{}],\"generic\":[{}],\"insts\":[\n{}\n],\"tys\":[\n{}\n]}}\n",
        esc(tcx.crate_name(LOCAL_CRATE).as_str()),
        roots.join(","),
        items.join(","),
        ex.insts.join(",\n"),
        ex.tys.join(",\n")
    )
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER / RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
