//! Whole-crate query over the MIR of /repo's crate (property C30): nothing but the arguments may influence an
//! operation, and nothing but the result and the receiver may be changed by it.
//!
//! Every body of the crate (functions, methods, closures, constants, statics) is visited, called or not.
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, DefIndex};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::{self, Body, Const, ConstOperand, ConstValue, Location, Rvalue, Terminator, TerminatorKind};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub struct Finding {
    pub tag: String,
    pub detail: String,
    pub site: String,
    pub func: String,
}
#[derive(Default)]
pub struct Report {
    pub funcs: BTreeSet<String>,
    pub obligations: BTreeMap<&'static str, u64>,
    pub findings: Vec<Finding>,
    pub unsup: Vec<String>,
}

const STATE: &str = "no state is kept between calls";
const WORLD: &str = "nothing but the arguments is consulted and nothing but the result is left behind";
const HIDDEN: &str = "values of the crate's types hold no state that can change behind a shared reference";
const ADDR: &str = "no result depends on an address or on an unspecified order";

struct V<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    func: String,
    r: &'a mut Report,
}

/// Is this a cell that is written at most once, with the same value whoever comes first?
fn once<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> bool {
    let p = tcx.def_path_str(did);
    let n = p.rsplit("::").next().unwrap_or("");
    matches!(n, "OnceLock" | "LazyLock" | "OnceCell" | "LazyCell" | "Once") && matches!(tcx.crate_name(did.krate).as_str(), "std" | "core")
}

/// Interior mutability anywhere inside a type (write-once cells count only what they hold).
fn mutable_inside<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>) -> Option<String> {
    if !seen.insert(t) || seen.len() > 400 {
        return None;
    }
    match t.kind() {
        ty::Adt(d, args) => {
            if d.is_unsafe_cell() {
                return Some(t.to_string());
            }
            let std = matches!(tcx.crate_name(d.did().krate).as_str(), "std" | "core" | "alloc");
            let mut any = None;
            for a in args.types() {
                any = any.or_else(|| mutable_inside(tcx, a, seen));
            }
            if any.is_some() || once(tcx, d.did()) {
                return any;
            }
            let p = tcx.def_path_str(d.did());
            let n = p.rsplit("::").next().unwrap_or("");
            // shared ownership counts references; what it owns was looked at above
            if std && matches!(n, "Rc" | "Arc" | "Weak" | "Vec" | "Box" | "String") {
                return None;
            }
            for f in d.all_fields() {
                let ft = f.ty(tcx, args).skip_norm_wip();
                if let Some(x) = mutable_inside(tcx, ft, seen) {
                    return Some(x);
                }
            }
            None
        }
        ty::Array(t, _) | ty::Slice(t) | ty::Ref(_, t, _) => mutable_inside(tcx, *t, seen),
        ty::RawPtr(t, _) => mutable_inside(tcx, *t, seen),
        ty::Tuple(ts) => ts.iter().find_map(|t| mutable_inside(tcx, t, seen)),
        _ => None,
    }
}

impl<'a, 'tcx> V<'a, 'tcx> {
    fn hit(&mut self, tag: &str, detail: String, sp: rustc_span::Span) {
        let site = self.tcx.sess.source_map().span_to_diagnostic_string(sp);
        self.r.findings.push(Finding { tag: tag.into(), detail, site, func: self.func.clone() });
    }
    fn count(&mut self, k: &'static str) {
        *self.r.obligations.entry(k).or_insert(0) += 1;
    }
    fn the_static(&mut self, did: DefId, sp: rustc_span::Span) {
        // the storage behind a `thread_local!`; what matters is the key through which it is used
        if self.tcx.opt_item_name(did).map_or(false, |n| n.as_str() == "__RUST_STD_INTERNAL_VAL" || n.as_str() == "VAL") && self.func.contains("{closure#") {
            return;
        }
        self.count(STATE);
        if self.tcx.is_foreign_item(did) {
            self.hit(WORLD, format!("uses the foreign item {}", self.tcx.def_path_str(did)), sp);
            return;
        }
        if self.tcx.is_mutable_static(did) {
            self.hit(STATE, format!("uses the mutable static {}", self.tcx.def_path_str(did)), sp);
            return;
        }
        let t = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
        if let Some(x) = mutable_inside(self.tcx, t, &mut HashSet::new()) {
            self.hit(STATE, format!("uses the static {}, which can change: {x}", self.tcx.def_path_str(did)), sp);
        }
    }
    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>, sp: rustc_span::Span) {
        let tcx = self.tcx;
        self.count(WORLD);
        if tcx.is_foreign_item(did) {
            self.hit(WORLD, format!("calls the foreign function {}", tcx.def_path_str(did)), sp);
            return;
        }
        let krate = tcx.crate_name(did.krate);
        if !matches!(krate.as_str(), "std" | "core" | "alloc") {
            return;
        }
        let path = format!("{krate}{}", tcx.def_path(did).to_string_no_crate_verbose());
        let name = tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default();
        let selft = args.types().next();
        let on = selft.map(|t| t.to_string()).unwrap_or_default();
        let world = [
            "std::fs::", "std::net::", "std::env::", "std::process::", "std::os::", "std::sys::", "std::backtrace::", "std::io::stdio::",
            "std::io::copy", "std::thread::current", "std::thread::functions::sleep", "std::thread::sleep", "std::thread::id",
        ];
        if world.iter().any(|w| path.starts_with(w)) && !path.starts_with("std::os::raw") && !path.starts_with("std::sys::thread_local") {
            self.hit(WORLD, format!("calls {}", tcx.def_path_str(did)), sp);
        }
        if path.starts_with("std::thread") && (matches!(name.as_str(), "current" | "sleep" | "id" | "available_parallelism" | "yield_now" | "park")) {
            self.hit(WORLD, format!("calls {}", tcx.def_path_str(did)), sp);
        }
        if (path.starts_with("std::time") || path.starts_with("std::panic")) && matches!(name.as_str(), "now" | "elapsed" | "set_hook" | "take_hook" | "update_hook") {
            self.hit(WORLD, format!("calls {}", tcx.def_path_str(did)), sp);
        }
        if path.starts_with("std::thread::local") && !matches!(name.as_str(), "new") {
            self.count(STATE);
            if let Some(t) = selft {
                if let Some(x) = mutable_inside(tcx, t, &mut HashSet::new()) {
                    self.hit(STATE, format!("uses a thread-local that can change: {x}"), sp);
                }
            }
        }
        if path.contains("RandomState") && matches!(name.as_str(), "new" | "default") || on.ends_with("RandomState") && matches!(name.as_str(), "default" | "build_hasher" | "hash_one") {
            self.hit(ADDR, "uses randomly seeded hashing as a value".into(), sp);
        }
        let hashed = |s: &str| s.contains("HashMap<") || s.contains("HashSet<");
        if matches!(name.as_str(), "iter" | "iter_mut" | "keys" | "values" | "values_mut" | "drain" | "into_keys" | "into_values" | "into_iter" | "retain" | "extract_if")
            && (path.starts_with("std::collections::hash") || hashed(&on))
        {
            self.hit(ADDR, format!("iterates over a hash table ({on})"), sp);
        }
        let raw = selft.map_or(false, |t| matches!(t.kind(), ty::RawPtr(..) | ty::FnPtr(..)));
        if (path.starts_with("core::hash") && name == "hash" && raw) || path == "core::ptr::hash" || (path.starts_with("core::fmt") && name == "new_pointer") {
            self.hit(ADDR, "uses an address as a value".into(), sp);
        }
        if name.ends_with("_volatile") && path.starts_with("core::") {
            self.hit(WORLD, format!("calls {}", tcx.def_path_str(did)), sp);
        }
    }
    fn constant_ptrs(&mut self, v: ConstValue, sp: rustc_span::Span) {
        let mut ids = vec![];
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => ids.push(p.provenance.alloc_id()),
            ConstValue::Indirect { alloc_id, .. } | ConstValue::Slice { alloc_id, .. } => ids.push(alloc_id),
            _ => {}
        }
        let mut seen = HashSet::new();
        while let Some(i) = ids.pop() {
            if !seen.insert(i) || seen.len() > 1000 {
                continue;
            }
            match self.tcx.try_get_global_alloc(i) {
                Some(GlobalAlloc::Static(d)) => self.the_static(d, sp),
                Some(GlobalAlloc::Memory(m)) => {
                    for (_, p) in m.inner().provenance().ptrs().iter() {
                        ids.push(p.alloc_id());
                    }
                }
                _ => {}
            }
        }
    }
}
impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _: Location) {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            self.callee(*d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()), c.span);
        }
        match c.const_ {
            Const::Val(v, _) => self.constant_ptrs(v, c.span),
            Const::Unevaluated(u, _) => {
                // constants of this crate are visited as bodies of their own
                let _ = u;
            }
            _ => {}
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        if let Rvalue::ThreadLocalRef(d) = r {
            let sp = self.body.source_info(l).span;
            self.the_static(*d, sp);
        }
        self.super_rvalue(r, l);
    }
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
        if let TerminatorKind::InlineAsm { .. } = t.kind {
            self.hit(WORLD, "inline assembly".into(), t.source_info.span);
        }
        self.super_terminator(t, l);
    }
}

pub fn run<'tcx>(tcx: TyCtxt<'tcx>) -> Report {
    let mut r = Report::default();
    let Some(cnum) = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "morton_index") else {
        r.unsup.push("the crate under analysis was not found".into());
        return r;
    };
    let n = tcx.num_extern_def_ids(cnum);
    let mut bodies = vec![];
    for i in 0..n {
        let did = DefId { krate: cnum, index: DefIndex::from_usize(i) };
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_mir_available(did) {
                    bodies.push(did);
                } else if tcx.is_foreign_item(did) {
                    r.findings.push(Finding {
                        tag: WORLD.into(),
                        detail: format!("declares the foreign function {}", tcx.def_path_str(did)),
                        site: tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(did)),
                        func: tcx.def_path_str(did),
                    });
                } else if !matches!(tcx.opt_associated_item(did), Some(a) if a.container == ty::AssocContainer::Trait) {
                    r.unsup.push(format!("no MIR for {}", tcx.def_path_str(did)));
                }
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                *r.obligations.entry(HIDDEN).or_insert(0) += 1;
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if let Some(x) = mutable_inside(tcx, t, &mut HashSet::new()) {
                    // thread_local! and friends declare helper types inside functions; only types a user can hold matter
                    if tcx.visibility(did).is_public() {
                        r.findings.push(Finding {
                            tag: HIDDEN.into(),
                            detail: format!("{} contains {x}", tcx.def_path_str(did)),
                            site: tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(did)),
                            func: tcx.def_path_str(did),
                        });
                    }
                }
            }
            _ => {}
        }
    }
    for did in bodies {
        let body = tcx.instance_mir(ty::InstanceKind::Item(did));
        let func = tcx.def_path_str(did);
        r.funcs.insert(func.clone());
        let mut v = V { tcx, body, func, r: &mut r };
        v.visit_body(body);
        for p in tcx.promoted_mir(did).iter() {
            let func = v.func.clone();
            let mut w = V { tcx, body: p, func, r: v.r };
            w.visit_body(p);
        }
    }
    r
}

const PRIVATE: &str = "the representation of an index is out of reach of safe code";
const TIED: &str = "what a safe function returns borrows from one of its arguments";

fn mentions<'tcx>(t: Ty<'tcx>, pred: &mut dyn FnMut(Ty<'tcx>) -> bool) -> bool {
    t.walk().any(|a| a.as_type().map_or(false, |t| pred(t)))
}

/// Second query (property C32): the signatures and type declarations of the crate.
pub fn surface<'tcx>(tcx: TyCtxt<'tcx>) -> Report {
    let mut r = Report::default();
    let Some(cnum) = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "morton_index") else {
        r.unsup.push("the crate under analysis was not found".into());
        return r;
    };
    let reprs = [
        "MortonIndex2D", "MortonIndex3D", "FixedDepthStorage2D", "FixedDepthStorage3D", "StaticStorage2D", "StaticStorage3D", "DynamicStorage2D",
        "DynamicStorage3D", "CellIter",
    ];
    let name = |d: DefId| tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
    let site = |d: DefId| tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d));
    for i in 0..tcx.num_extern_def_ids(cnum) {
        let did = DefId { krate: cnum, index: DefIndex::from_usize(i) };
        match tcx.def_kind(did) {
            DefKind::Struct if reprs.contains(&name(did).as_str()) => {
                for f in tcx.adt_def(did).all_fields() {
                    *r.obligations.entry(PRIVATE).or_insert(0) += 1;
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    // the bits of a bare storage can be reached through `bits_mut` anyway; an index keeps its storage to itself
                    let bits = name(did).contains("Storage") && !t.is_integral();
                    if tcx.visibility(f.did).is_public() && !bits {
                        r.findings.push(Finding {
                            tag: PRIVATE.into(),
                            detail: format!("field `{}` of {} is public", f.name, tcx.def_path_str(did)),
                            site: site(f.did),
                            func: tcx.def_path_str(did),
                        });
                    }
                }
            }
            DefKind::Fn | DefKind::AssocFn => {
                let of_impl = tcx.opt_associated_item(did).map_or(false, |a| matches!(a.container, ty::AssocContainer::TraitImpl(_)));
                if tcx.is_foreign_item(did) || !(of_impl || tcx.visibility(did).is_public()) {
                    continue;
                }
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                if sig.safety().is_unsafe() {
                    continue;
                }
                let path = tcx.def_path_str(did);
                r.funcs.insert(path.clone());
                *r.obligations.entry(PRIVATE).or_insert(0) += 1;
                *r.obligations.entry(TIED).or_insert(0) += 1;
                let hands_out = mentions(sig.output(), &mut |t| matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut()));
                let index = sig.inputs().iter().any(|t| {
                    matches!(t.kind(), ty::Ref(_, u, m) if m.is_mut() && matches!(u.kind(), ty::Adt(d, _)
                        if d.did().krate == cnum && ["MortonIndex2D", "MortonIndex3D"].contains(&name(d.did()).as_str())))
                });
                if hands_out && index {
                    r.findings.push(Finding {
                        tag: PRIVATE.into(),
                        detail: format!("{path} returns {}", sig.output()),
                        site: site(did),
                        func: path.clone(),
                    });
                }
                if sig.inputs().is_empty() {
                    continue;
                }
                let mut given = HashSet::new();
                for t in sig.inputs() {
                    tcx.for_each_free_region(t, |x| {
                        given.insert(x);
                    });
                }
                let mut loose = vec![];
                tcx.for_each_free_region(&sig.output(), |x| {
                    if !given.contains(&x) && !x.is_static() {
                        loose.push(x.to_string());
                    }
                });
                // a borrowing type of this crate that claims to borrow forever
                let forever = mentions(sig.output(), &mut |t| {
                    matches!(t.kind(), ty::Adt(d, a) if d.did().krate == cnum && a.regions().any(|x| x.is_static()))
                });
                let gives_static = sig.inputs().iter().any(|t| {
                    let mut s = false;
                    tcx.for_each_free_region(t, |x| s |= x.is_static());
                    s
                });
                if !loose.is_empty() || (forever && !gives_static) {
                    r.findings.push(Finding {
                        tag: TIED.into(),
                        detail: format!("{path} returns {}, which borrows from none of its arguments", sig.output()),
                        site: site(did),
                        func: path.clone(),
                    });
                }
            }
            _ => {}
        }
    }
    r
}
