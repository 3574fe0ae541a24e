//! mirx: a rustc wrapper that dumps the monomorphised pre-coroutine-transform MIR
//! of the crates of /repo, with resolved callees and type tables, as JSON.
//!
//! The wrapper compiles nothing differently; it observes `mir_promoted` (the last
//! MIR phase in which async bodies still have the shape of their source).
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON helpers
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn bytes_json(b: &[u8]) -> String {
    arr(b.iter().map(|x| x.to_string()).collect())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: HashMap<DefId, Body<'tcx>>,
    promoted: HashMap<DefId, Vec<Body<'tcx>>>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    insts: HashMap<(Instance<'tcx>, Option<usize>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, Option<usize>)>,
    body_json: Vec<(usize, String)>,
    bridged: HashSet<Instance<'tcx>>,
}

const INLINE_PREFIXES: &[&str] = &[
    "core::option::", "core::result::", "core::convert::", "core::ops::control_flow::",
    "core::ops::try_trait::", "core::ops::function::", "core::cmp::", "core::bool::", "core::clone::",
    "core::task::poll::", "core::borrow::", "core::tuple::", "core::ops::range::", "core::ops::deref",
    "core::array::equality", "core::num::<impl", "core::default::",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // a stable, crate-qualified path without generic arguments of impls
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate).to_string();
        let p = with_no_trimmed_paths!(tcx.def_path_str(d));
        if d.krate == LOCAL_CRATE {
            format!("{}::{}", krate, p)
        } else {
            p
        }
    }

    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let name = with_no_trimmed_paths!(t.to_string());
        let mut o = format!("{{\"s\":{}", esc(&name));
        match t.kind() {
            ty::Adt(def, args) => {
                let path = self.path(def.did());
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let targs: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
                let _ = write!(o, ",\"k\":\"{}\",\"path\":{},\"args\":{}", kind, esc(&path), arr(targs));
                let local = {
                    let c = tcx.crate_name(def.did().krate).to_string();
                    c == "pica" || c == "pica_http"
                };
                let deep = local
                    || def.is_enum()
                    || path.starts_with("core::ops::range")
                    || path.starts_with("core::ops::Range")
                    || path.starts_with("std::ops::Range")
                    || path.starts_with("std::pin::Pin")
                    || path.starts_with("core::pin::Pin");
                if local {
                    o.push_str(",\"local\":1");
                }
                // does the type have a user Drop impl?
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    if local {
                        let inst = Instance::new_raw(d.did, args);
                        let id = self.inst(inst);
                        let _ = write!(o, ",\"drop\":{}", id);
                    } else {
                        o.push_str(",\"fdrop\":1");
                    }
                }
                if deep {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = f.ty(tcx, args).skip_norm_wip();
                            let fty = tcx
                                .try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(fty))
                                .unwrap_or(fty);
                            let ti = self.ty(fty);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), ti));
                        }
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            esc(v.name.as_str()),
                            discr,
                            arr(fs)
                        ));
                    }
                    let _ = write!(o, ",\"v\":{}", arr(vs));
                }
            }
            ty::Ref(_, inner, m) => {
                let x = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), x);
            }
            ty::RawPtr(inner, m) => {
                let x = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), x);
            }
            ty::Slice(inner) => {
                let x = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"slice\",\"el\":{}", x);
            }
            ty::Array(inner, n) => {
                let x = self.ty(*inner);
                let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                let _ = write!(o, ",\"k\":\"array\",\"el\":{},\"n\":{}", x, n);
            }
            ty::Tuple(ts) => {
                let xs: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"el\":{}", arr(xs));
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let inst = Instance::new_raw(*d, args);
                let id = self.inst(inst);
                let _ = write!(o, ",\"k\":\"closure\",\"def\":{},\"ups\":{},\"inst\":{}", esc(&self.path(*d)), arr(ups), id);
            }
            ty::Coroutine(d, args) => {
                let ups: Vec<String> =
                    args.as_coroutine().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let inst = Instance::new_raw(*d, args);
                let id = self.inst(inst);
                let _ = write!(o, ",\"k\":\"coroutine\",\"def\":{},\"ups\":{},\"inst\":{}", esc(&self.path(*d)), arr(ups), id);
            }
            ty::FnDef(d, args) => {
                let c = self.callee(*d, args.no_bound_vars().unwrap());
                let _ = write!(o, ",\"k\":\"fndef\",\"fn\":{}", c);
            }
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                let _ = write!(o, ",\"k\":\"dyn\",\"trait\":{}", esc(&p));
            }
            ty::Int(_) | ty::Uint(_) => {
                let sz = t.primitive_size(tcx).bytes();
                let _ = write!(o, ",\"k\":\"int\",\"size\":{},\"signed\":{}", sz, t.is_signed());
            }
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Float(_) => o.push_str(",\"k\":\"float\""),
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        self.type_json[i] = o;
        i
    }

    fn want_body(&self, inst: Instance<'tcx>) -> bool {
        let InstanceKind::Item(d) = inst.def else { return false };
        if self.bodies.contains_key(&d) {
            return true;
        }
        let krate = self.tcx.crate_name(d.krate).to_string();
        if krate == "core" || krate == "std" {
            let p = self.real_path(d);
            return INLINE_PREFIXES.iter().any(|x| p.starts_with(x)) && self.tcx.is_mir_available(d);
        }
        if krate == "pica" && d.krate != LOCAL_CRATE {
            return false;
        }
        false
    }

    fn real_path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate).to_string();
        let p = rustc_middle::ty::print::with_no_visible_paths!(with_no_trimmed_paths!(
            tcx.def_path_str(d)
        ));
        // impl paths print as `<T as Trait>::f`: recover the module
        if p.starts_with('<') || !p.starts_with(&krate) {
            let mut par = d;
            while let Some(pp) = tcx.opt_parent(par) {
                par = pp;
                if matches!(tcx.def_kind(par), DefKind::Mod) {
                    let m = rustc_middle::ty::print::with_no_visible_paths!(
                        with_no_trimmed_paths!(tcx.def_path_str(par))
                    );
                    return format!("{}::{}", m, tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default());
                }
            }
        }
        p
    }

    /// The local functions a serde library function calls back (serialization of local types) are dumped
    /// as well: walks the library's generic functions as far as they are instantiated with local types.
    fn bridge(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        if !tcx.crate_name(inst.def_id().krate).as_str().starts_with("serde") {
            return;
        }
        let mut todo = vec![inst];
        while let Some(inst) = todo.pop() {
            let InstanceKind::Item(d) = inst.def else { continue };
            let krate = tcx.crate_name(d.krate);
            let walked = krate.as_str().starts_with("serde") || ["core", "alloc", "std"].contains(&krate.as_str());
            if d.is_local() || !walked || !tcx.is_mir_available(d) {
                continue;
            }
            let inst = Instance { def: inst.def, args: tcx.erase_and_anonymize_regions(inst.args) };
            let local = inst.args.types().any(|t| {
                t.walk().any(|a| match a.as_type().map(|t| t.kind()) {
                    Some(ty::Adt(a, _)) => a.did().is_local() || tcx.crate_name(a.did().krate).as_str() == "pica",
                    _ => false,
                })
            });
            if !local || !self.bridged.insert(inst) {
                continue;
            }
            let body = tcx.instance_mir(inst.def);
            for bb in body.basic_blocks.iter() {
                let TerminatorKind::Call { func, .. } = &bb.terminator().kind else { continue };
                let fty = func.ty(&body.local_decls, tcx);
                let Ok(fty) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, fty)) else { continue };
                let ty::FnDef(cd, cargs) = fty.kind() else { continue };
                let Some(cargs) = cargs.no_bound_vars() else { continue };
                if let Ok(Some(c)) = Instance::try_resolve(tcx, self.env(), *cd, cargs) {
                    let ours = tcx.crate_name(c.def_id().krate).as_str() == "pica" && tcx.is_mir_available(c.def_id());
                    if self.want_body(c) || ours && matches!(c.def, InstanceKind::Item(_)) {
                        self.inst(c);
                    } else {
                        todo.push(c);
                    }
                }
            }
        }
    }

    fn inst(&mut self, inst: Instance<'tcx>) -> usize {
        self.inst_p(inst, None)
    }
    fn inst_p(&mut self, inst: Instance<'tcx>, p: Option<usize>) -> usize {
        let inst = Instance { def: inst.def, args: self.tcx.erase_and_anonymize_regions(inst.args) };
        if let Some(i) = self.insts.get(&(inst, p)) {
            return *i;
        }
        let i = self.insts.len();
        self.insts.insert((inst, p), i);
        self.queue.push_back((i, inst, p));
        i
    }

    /// JSON description of a callee (def, args): declared path, type args, resolved instance.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let decl = self.path(d);
        let mut o = format!("{{\"decl\":{}", esc(&decl));
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(o, ",\"targs\":{}", arr(targs));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
        }
        let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        if is_ctor {
            let adt = tcx.parent(d);
            let (adt_did, vidx) = match tcx.def_kind(adt) {
                DefKind::Variant => {
                    let e = tcx.parent(adt);
                    (e, tcx.adt_def(e).variant_index_with_id(adt).as_usize())
                }
                _ => (adt, 0),
            };
            let fsig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().skip_binder().output();
            let t = self.ty(fsig);
            let _ = write!(o, ",\"ctor\":[{},{},{}]}}", t, vidx, esc(&self.path(adt_did)));
            return o;
        }
        match Instance::try_resolve(tcx, self.env(), d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                let _ = write!(o, ",\"path\":{},\"crate\":{}", esc(&self.path(rd)), esc(tcx.crate_name(rd.krate).as_str()));
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                let _ = write!(o, ",\"kind\":\"{}\"", kind);
                if tcx.is_closure_like(rd) && matches!(inst.def, InstanceKind::Item(_)) {
                    o.push_str(",\"closure\":1");
                }
                if self.want_body(inst) {
                    let id = self.inst(inst);
                    let _ = write!(o, ",\"inst\":{}", id);
                } else {
                    self.bridge(inst);
                }
                // types of the resolved impl's arguments
                let ra: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"rargs\":{}", arr(ra));
            }
            _ => o.push_str(",\"unresolved\":1"),
        }
        o.push('}');
        o
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{}]", esc(&f), lo.line)
    }

    fn place(&mut self, p: &Place<'tcx>, sub: &dyn Fn(Ty<'tcx>) -> Ty<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(sub(t));
                    format!("[\"f\",{},{}]", f.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, vi) => format!("[\"d\",{}]", vi.as_usize()),
                ProjectionElem::OpaqueCast(_) => "\"oc\"".into(),
                _ => "\"?\"".into(),
            });
        }
        arr(v)
    }

    fn const_json(&mut self, c: &ConstOperand<'tcx>, inst: Instance<'tcx>, sub: &dyn Fn(Ty<'tcx>) -> Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let konst = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env(),
            EarlyBinder::bind(tcx, c.const_),
        ) {
            Ok(k) => k,
            Err(_) => c.const_,
        };
        let t = sub(konst.ty());
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let cal = self.callee(*d, args.no_bound_vars().unwrap());
            return format!("[\"c\",{{\"k\":\"fn\",\"t\":{},\"fn\":{}}}]", ti, cal);
        }
        if let mir::Const::Unevaluated(u, _) = konst {
            if let Some(p) = u.promoted {
                if self.promoted.contains_key(&u.def) {
                    let i = Instance::new_raw(u.def, u.args);
                    let id = self.inst_p(i, Some(p.as_usize()));
                    return format!("[\"c\",{{\"k\":\"body\",\"t\":{},\"inst\":{}}}]", ti, id);
                }
            } else {
                // named constant
                let scalar = matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_));
                if !scalar {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env(), u.def, u.args) {
                        if self.bodies.contains_key(&i.def_id()) {
                            let id = self.inst(i);
                            return format!(
                                "[\"c\",{{\"k\":\"body\",\"t\":{},\"inst\":{},\"name\":{}}}]",
                                ti, id, esc(&self.path(u.def))
                            );
                        }
                    }
                }
            }
        }
        match konst.eval(tcx, self.env(), c.span) {
            Ok(v) => {
                if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                    if let Some(s) = v.try_to_scalar_int() {
                        let sz = s.size();
                        let bits = s.to_bits(sz);
                        let val = if t.is_signed() {
                            sz.sign_extend(bits).to_string()
                        } else {
                            bits.to_string()
                        };
                        let fl = if t.is_floating_point() { ",\"float\":1" } else { "" };
                        return format!("[\"c\",{{\"k\":\"int\",\"t\":{},\"v\":{}{}}}]", ti, val, fl);
                    }
                }
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() || matches!(inner.kind(), ty::Slice(x) if x.is_integral() && x.primitive_size(tcx).bytes()==1) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            if inner.is_str() {
                                return format!(
                                    "[\"c\",{{\"k\":\"str\",\"t\":{},\"v\":{}}}]",
                                    ti,
                                    esc(&String::from_utf8_lossy(b))
                                );
                            }
                            return format!("[\"c\",{{\"k\":\"bytes\",\"t\":{},\"v\":{}}}]", ti, bytes_json(b));
                        }
                    }
                }
                if let mir::ConstValue::ZeroSized = v {
                    return format!("[\"c\",{{\"k\":\"zst\",\"t\":{}}}]", ti);
                }
                // fieldless enum scalar
                if let (ty::Adt(def, _), Some(s)) = (t.kind(), v.try_to_scalar_int()) {
                    let bits = s.to_bits(s.size());
                    let fieldless = def.is_enum() && def.variants().iter().all(|v| v.fields.is_empty());
                    if fieldless {
                        for (vi, dd) in def.discriminants(tcx) {
                            let m = s.size().truncate(dd.val);
                            if m == bits {
                                return format!("[\"c\",{{\"k\":\"variant\",\"t\":{},\"v\":{}}}]", ti, vi.as_usize());
                            }
                        }
                    }
                    return format!("[\"c\",{{\"k\":\"adtint\",\"t\":{},\"v\":{}}}]", ti, bits);
                }
                // byte array behind a reference
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(el, n) = inner.kind() {
                        if el.is_integral() && el.primitive_size(tcx).bytes() == 1 {
                            if let Some(mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                                let (prov, off) = p.prov_and_relative_offset();
                                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                                if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                    let o = off.bytes() as usize;
                                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                    return format!("[\"c\",{{\"k\":\"bytes\",\"t\":{},\"v\":{}}}]", ti, bytes_json(b));
                                }
                            }
                        }
                    }
                }
                let txt = with_no_trimmed_paths!(format!("{}", konst));
                format!("[\"c\",{{\"k\":\"opaque\",\"t\":{},\"v\":{}}}]", ti, esc(&txt))
            }
            Err(_) => format!("[\"c\",{{\"k\":\"opaque\",\"t\":{}}}]", ti),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, inst: Instance<'tcx>, sub: &dyn Fn(Ty<'tcx>) -> Ty<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, sub)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, sub)),
            Operand::Constant(c) => self.const_json(c, inst, sub),
            _ => "[\"c\",{\"k\":\"int\",\"t\":0,\"v\":0,\"rt\":1}]".into(),
        }
    }

    fn dump_body(&mut self, id: usize, inst: Instance<'tcx>, p: Option<usize>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let owned;
        let body: &Body<'tcx> = match p {
            Some(p) => {
                owned = self.promoted[&d][p].clone();
                &owned
            }
            None => {
                if let Some(b) = self.bodies.get(&d) {
                    owned = b.clone();
                    &owned
                } else if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && tcx.is_mir_available(d) {
                    tcx.optimized_mir(d)
                } else {
                    return;
                }
            }
        };
        let env = self.env();
        let sub = |t: Ty<'tcx>| -> Ty<'tcx> {
            match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, t)) {
                Ok(t) => t,
                Err(_) => t,
            }
        };
        let sub: &dyn Fn(Ty<'tcx>) -> Ty<'tcx> = &sub;
        let name = with_no_trimmed_paths!(match p {
            Some(p) => format!("{}::promoted[{}]", inst, p),
            None => format!("{}", inst),
        });
        let krate = tcx.crate_name(d.krate).to_string();
        let mut o = format!(
            "{{\"id\":{},\"name\":{},\"path\":{},\"crate\":{},\"argc\":{},\"span\":{}",
            id, esc(&name), esc(&self.path(d)), esc(&krate), body.arg_count, self.span(body.span)
        );
        let kind = match tcx.def_kind(d) {
            DefKind::Closure => {
                if tcx.is_coroutine(d) { "coroutine" } else { "closure" }
            }
            DefKind::Fn | DefKind::AssocFn => "fn",
            _ => "const",
        };
        let _ = write!(o, ",\"kind\":\"{}\"", kind);
        if let Some(parent) = tcx.opt_parent(d) {
            let _ = write!(o, ",\"parent\":{}", esc(&self.path(parent)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"vis\":{}", tcx.visibility(d).is_public());
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = with_no_trimmed_paths!(tcx.type_of(im).instantiate_identity().skip_norm_wip().to_string());
                let _ = write!(o, ",\"impl_self\":{}", esc(&st));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"impl_trait\":{}", esc(&with_no_trimmed_paths!(tr.print_only_trait_path().to_string())));
                }
                if tcx.is_automatically_derived(im) {
                    o.push_str(",\"derived\":1");
                }
            }
            if tcx.asyncness(d).is_async() {
                o.push_str(",\"async\":1");
            }
        }
        if body.spread_arg.is_some() {
            o.push_str(",\"spread\":1");
        }
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(sub(l.ty)).to_string()).collect();
        let _ = write!(o, ",\"locals\":{}", arr(locals));
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p, sub);
                names.push(format!("[{},{}]", esc(v.name.as_str()), pj));
            }
        }
        let _ = write!(o, ",\"names\":{}", arr(names));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let (pl, rv) = &**bx;
                        let pj = self.place(pl, sub);
                        let rj = self.rvalue(rv, inst, sub, body);
                        st.push(format!("[\"a\",{},{},{}]", pj, rj, self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place, sub);
                        st.push(format!("[\"sd\",{},{}]", pj, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".into(),
            };
            let tj = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let oj = self.operand(discr, inst, sub);
                    let tt = self.ty(sub(discr.ty(&body.local_decls, tcx)));
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{},{}]", oj, arr(ts), targets.otherwise().as_usize(), tt, sp)
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let tt = self.ty(sub(place.ty(&body.local_decls, tcx).ty));
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place, sub), target.as_usize(), unw(unwind), tt, sp)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let fty = sub(func.ty(&body.local_decls, tcx));
                    let fj = if let ty::FnDef(d, a) = fty.kind() {
                        self.callee(*d, a.no_bound_vars().unwrap())
                    } else {
                        format!("{{\"decl\":\"<indirect>\",\"op\":{}}}", self.operand(func, inst, sub))
                    };
                    let aj: Vec<String> = args.iter().map(|a| self.operand(&a.node, inst, sub)).collect();
                    let dt = self.ty(sub(destination.ty(&body.local_decls, tcx).ty));
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        fj,
                        arr(aj),
                        self.place(destination, sub),
                        target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()),
                        unw(unwind),
                        dt,
                        self.span(*fn_span)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![self.operand(len, inst, sub), self.operand(index, inst, sub)]),
                        AssertKind::Overflow(b, l, r) => {
                            let _ = b;
                            (match b { BinOp::Add => "ovf_add", BinOp::Sub => "ovf_sub", BinOp::Mul => "ovf_mul", _ => "ovf_other" },
                             vec![self.operand(l, inst, sub), self.operand(r, inst, sub)])
                        }
                        AssertKind::OverflowNeg(x) => ("ovf_neg", vec![self.operand(x, inst, sub)]),
                        AssertKind::DivisionByZero(x) => ("div0", vec![self.operand(x, inst, sub)]),
                        AssertKind::RemainderByZero(x) => ("rem0", vec![self.operand(x, inst, sub)]),
                        _ => ("other", vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},\"{}\",{},{},{},{}]",
                        self.operand(cond, inst, sub), expected, k, arr(ops), target.as_usize(), unw(unwind), sp
                    )
                }
                TerminatorKind::Yield { resume, resume_arg, value, .. } => {
                    format!("[\"yield\",{},{},{}]", resume.as_usize(), self.place(resume_arg, sub), self.operand(value, inst, sub))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::CoroutineDrop => "[\"return\"]".into(),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("[{},{},{}]", arr(st), tj, bb.is_cleanup));
        }
        let _ = write!(o, ",\"blocks\":{}}}", arr(blocks));
        self.body_json.push((id, o));
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, inst: Instance<'tcx>, sub: &dyn Fn(Ty<'tcx>) -> Ty<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, inst, sub)),
            Rvalue::Repeat(o, n) => {
                let n = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, *n)) {
                    Ok(n) => n.try_to_target_usize(tcx),
                    _ => None,
                };
                format!("[\"repeat\",{},{}]", self.operand(o, inst, sub), n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p, sub)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p, sub)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let from = self.ty(sub(o.ty(&body.local_decls, tcx)));
                let t = self.ty(sub(*t));
                format!("[\"cast\",{},{},{},{}]", esc(&ks), self.operand(o, inst, sub), t, from)
            }
            Rvalue::BinaryOp(op, bx) => {
                let t = self.ty(sub(bx.0.ty(&body.local_decls, tcx)));
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(&bx.0, inst, sub), self.operand(&bx.1, inst, sub), t)
            }
            Rvalue::UnaryOp(op, o) => {
                let t = self.ty(sub(o.ty(&body.local_decls, tcx)));
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(o, inst, sub), t)
            }
            Rvalue::Discriminant(p) => {
                let t = self.ty(sub(p.ty(&body.local_decls, tcx).ty));
                format!("[\"discr\",{},{}]", self.place(p, sub), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, inst, sub)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(sub(*t))),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, a, _, uf) => {
                        let t = sub(tcx.type_of(*d).instantiate(tcx, a).skip_norm_wip());
                        let t = self.ty(t);
                        format!("[\"adt\",{},{},{}]", t, vi.as_usize(), uf.map(|f| f.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) | AggregateKind::Coroutine(d, a) | AggregateKind::CoroutineClosure(d, a) => {
                        let is_co = matches!(&**k, AggregateKind::Coroutine(..));
                        let a2 = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, *a)) {
                            Ok(a) => a,
                            Err(_) => *a,
                        };
                        let i = Instance::new_raw(*d, a2);
                        let id = self.inst(i);
                        format!("[\"{}\",{},{}]", if is_co { "coroutine" } else { "closure" }, id, esc(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                };
                format!("[\"agg\",{},{}]", kj, arr(os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, sub)),
            Rvalue::ThreadLocalRef(_) => "[\"other\"]".into(),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, inst, sub)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p, sub)),
        }
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            bodies: HashMap::new(),
            promoted: HashMap::new(),
            types: HashMap::new(),
            type_json: vec![],
            insts: HashMap::new(),
            queue: VecDeque::new(),
            body_json: vec![],
            bridged: HashSet::new(),
        };
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| k.local_def_index.as_u32());
        // Pass 1: clone every promoted body before anything steals one.
        for k in &keys {
            let dk = tcx.def_kind(*k);
            if matches!(dk, DefKind::Ctor(..)) {
                continue;
            }
            let is_const = matches!(
                dk,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
            );
            let _ = is_const;
            let (b, p) = tcx.mir_promoted(*k);
            if b.is_stolen() || p.is_stolen() {
                eprintln!("mirx: stolen body {:?}", k);
                continue;
            }
            let body = b.borrow().clone();
            let proms: Vec<_> = p.borrow().iter().cloned().collect();
            cx.bodies.insert(k.to_def_id(), body);
            cx.promoted.insert(k.to_def_id(), proms);
        }
        // Pass 2: roots = every local function without type parameters.
        let mut roots = vec![];
        for k in &keys {
            let d = k.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.generics_of(d).requires_monomorphization(tcx) {
                continue;
            }
            let inst = Instance::mono(tcx, d);
            let id = cx.inst(inst);
            roots.push(id);
        }
        // statics / consts of the crate
        let mut consts = vec![];
        for k in &keys {
            let d = k.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) && cx.bodies.contains_key(&d)
                && !tcx.generics_of(d).requires_monomorphization(tcx) {
                let id = cx.inst(Instance::mono(tcx, d));
                consts.push(format!("[{},{}]", esc(&cx.path(d)), id));
            }
        }
        while let Some((id, inst, p)) = cx.queue.pop_front() {
            cx.dump_body(id, inst, p);
        }
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\n\"roots\":{},\n\"consts\":{},\n\"types\":[\n", esc(tcx.crate_name(LOCAL_CRATE).as_str()),
            arr(roots.iter().map(|x| x.to_string()).collect()), arr(consts));
        o.push_str(&cx.type_json.join(",\n"));
        o.push_str("],\n\"bodies\":{\n");
        let bs: Vec<String> = cx.body_json.iter().map(|(i, b)| format!("\"{}\":{}", i, b)).collect();
        o.push_str(&bs.join(",\n"));
        o.push_str("}}\n");
        std::fs::write(&self.out, o).expect("mirx: cannot write output");
        Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    args.remove(1);
    let outdir = std::env::var("MIRX_OUT").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let is_test = args.iter().any(|a| a == "--test");
    let target = !outdir.is_empty() && (name == "pica" || name == "pica_http") && !is_test
        && std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    if target {
        let mut cb = Cb { out: format!("{}/{}{}.json", outdir, name, if is_bin { "-bin" } else { "-lib" }) };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
