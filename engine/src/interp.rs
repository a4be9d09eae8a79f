//! Abstract interpreter over monomorphised MIR.  Values are vectors of Boolean functions (bv/bdd),
//! control-flow joins at immediate post-dominators are exact, and nothing is ever executed.
use crate::bdd::{self, and, not, Bit, FxMap, F, T};
use crate::bv::{mask, Bv};
use crate::mem::*;
use rustc_abi::{BackendRepr, FieldIdx, HasDataLayout, Size, TagEncoding, VariantIdx, Variants};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, BasicBlock, BinOp, Body, CastKind, ConstOperand, ConstValue, NonDivergingIntrinsic,
    Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp, RETURN_PLACE,
};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Bytes = Vec<AByte>;

#[derive(Clone, Debug)]
pub enum Sc {
    Int(Bv),
    Ptr(PtrV),
}

#[derive(Clone)]
pub struct MPlace<'tcx> {
    pub addr: Sc,
    pub meta: Option<Sc>,
    pub layout: TyAndLayout<'tcx>,
}

#[derive(Clone)]
pub struct Opv<'tcx> {
    pub layout: TyAndLayout<'tcx>,
    pub bytes: Bytes,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum ExitKind {
    /// A panic that happens in every build.
    Panic,
    /// A failed arithmetic-overflow assertion (panics only with overflow checks).
    Overflow,
    Ub,
    /// Memory that is neither freed nor reachable from a static when the entry returns.
    Leak,
}
#[derive(Clone, Debug)]
pub struct Exit {
    pub kind: ExitKind,
    pub msg: String,
    pub site: String,
    pub chain: Vec<String>,
    pub pc: Bit,
    pub notes: Vec<(String, u128)>,
}

#[derive(Debug)]
pub enum E {
    /// The current step needs the state split on this condition.
    Split(Bit),
    Panic(ExitKind, String),
    Unsup(String),
    Dead,
}
pub type R<X> = Result<X, E>;
pub fn ub<X>(m: impl Into<String>) -> R<X> {
    Err(E::Panic(ExitKind::Ub, m.into()))
}
pub fn unsup<X>(m: impl Into<String>) -> R<X> {
    Err(E::Unsup(m.into()))
}

pub struct BodyInfo<'tcx> {
    pub inst: Instance<'tcx>,
    pub body: Body<'tcx>,
    pub layouts: Vec<Option<TyAndLayout<'tcx>>>,
    pub ipdom: Vec<Option<BasicBlock>>,
    pub name: String,
    pub def_name: String,
    pub local_crate: bool,
    pub is_target: bool,
}

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub uid: u32,
    pub bi: Rc<BodyInfo<'tcx>>,
    pub bb: BasicBlock,
    pub stmt: usize,
    pub locals: Vec<Option<Rc<Alloc>>>,
    pub dest: Option<MPlace<'tcx>>,
    pub ret_to: Option<BasicBlock>,
}

#[derive(Clone)]
pub struct State<'tcx> {
    pub frames: Vec<Rc<Frame<'tcx>>>,
    pub heap: Heap,
    pub pc: Bit,
    pub expect: u32,
    /// Nesting of regions that must not allocate.
    pub noalloc: u32,
    pub notes: Vec<(String, u128)>,
    /// Memory that must be unchanged when an expected panic happens.
    pub keep: Rc<Vec<(String, AId, Rc<Alloc>)>>,
}

#[derive(Clone, Copy)]
struct Stop {
    depth: usize,
    block: Option<BasicBlock>,
}

pub enum GAlloc<'tcx> {
    Mem(Rc<Alloc>),
    Fn(Instance<'tcx>),
    VTable(Ty<'tcx>, &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>),
    TypeId(Ty<'tcx>),
}

#[derive(Clone, Debug)]
pub struct CheckFail {
    pub tag: String,
    pub cond: Bit,
    pub site: String,
    pub chain: Vec<String>,
    pub notes: Vec<(String, u128)>,
    pub detail: String,
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub checks: u64,
    pub check_tags: BTreeMap<String, u64>,
    pub funcs: BTreeSet<String>,
    pub assert_sites: BTreeSet<String>,
    pub mem_accesses: u64,
    pub ub_checks: u64,
    pub forks: u64,
    pub heap_left: u64,
    pub joins: u64,
    pub max_nodes: usize,
}

#[derive(PartialEq, Eq, Hash, Clone, Copy)]
pub enum CalleeKind {
    Normal,
    Panic,
    PanicNounwind,
    Rt,
    DisplayInt,
    SpecToString,
    NoSimd,
}

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub psz: usize,
    pub le: bool,
    bodies: RefCell<HashMap<Instance<'tcx>, Rc<BodyInfo<'tcx>>>>,
    pub globals: Vec<GAlloc<'tcx>>,
    galloc_map: HashMap<AllocId, u32>,
    fn_map: HashMap<Instance<'tcx>, u32>,
    vt_map: HashMap<(Ty<'tcx>, &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>), u32>,
    const_cache: FxMap<usize, Rc<Opv<'tcx>>>,
    resolve_cache: HashMap<(DefId, ty::GenericArgsRef<'tcx>), Instance<'tcx>>,
    pub kind_cache: HashMap<DefId, CalleeKind>,
    next_uid: u32,
    pub next_heap: u32,
    pub exits: Vec<Exit>,
    pub fails: Vec<CheckFail>,
    pub unsup: Vec<String>,
    pub stats: Stats,
    pub step_limit: u64,
    pub overflow_continue: bool,
    pub rt_fns: HashMap<String, DefId>,
    pub trace: bool,
    depth_run: usize,
    pub abort: Option<String>,
    /// Globals that may be written (static mut, interior mutability, thread locals).
    pub mutable: std::collections::HashSet<u32>,
    /// Globals written in the current task.
    pub written: BTreeSet<u32>,
    /// Where heap memory was allocated (recorded only when looking for leaks).
    pub leak: bool,
    pub heap_sites: FxMap<u32, (String, Vec<String>)>,
    /// Objects whose address the program has looked at to align a pointer into them, with the alignment.
    pub promised: HashMap<AId, u64>,
}

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        let env = TypingEnv::fully_monomorphized();
        let dl = tcx.data_layout();
        Interp {
            tcx,
            env,
            psz: dl.pointer_size().bytes() as usize,
            le: dl.endian == rustc_abi::Endian::Little,
            bodies: Default::default(),
            globals: vec![],
            galloc_map: Default::default(),
            fn_map: Default::default(),
            vt_map: Default::default(),
            const_cache: Default::default(),
            resolve_cache: Default::default(),
            kind_cache: Default::default(),
            next_uid: 1,
            next_heap: 1,
            exits: vec![],
            fails: vec![],
            unsup: vec![],
            stats: Default::default(),
            step_limit: 400_000_000,
            overflow_continue: false,
            rt_fns: Default::default(),
            trace: std::env::var("MA_TRACE").is_ok(),
            depth_run: 0,
            abort: None,
            mutable: Default::default(),
            written: Default::default(),
            leak: std::env::var("MA_LEAK").is_ok(),
            heap_sites: Default::default(),
            promised: HashMap::new(),
        }
    }
    /// Constants hold no abstract bits, so caches survive between tasks.
    pub fn reset_consts(&mut self) {
        self.next_uid = 1;
        self.next_heap = 1;
        self.depth_run = 0;
        self.written.clear();
        self.heap_sites.clear();
        self.promised.clear();
    }
    pub fn lcx(&self) -> LayoutCx<'tcx> {
        LayoutCx::new(self.tcx, self.env)
    }
    pub fn pw(&self) -> u32 {
        self.psz as u32 * 8
    }
    pub fn layout(&self, ty: Ty<'tcx>) -> R<TyAndLayout<'tcx>> {
        match self.tcx.layout_of(self.env.as_query_input(ty)) {
            Ok(l) => Ok(l),
            Err(e) => unsup(format!("layout of {ty}: {e:?}")),
        }
    }

    // ------------------------------------------------------------------ bodies

    pub fn body(&self, inst: Instance<'tcx>) -> R<Rc<BodyInfo<'tcx>>> {
        if let Some(b) = self.bodies.borrow().get(&inst) {
            return Ok(b.clone());
        }
        let tcx = self.tcx;
        let did = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {
                if !tcx.is_mir_available(did) {
                    return unsup(format!("no MIR for {}", tcx.def_path_str(did)));
                }
            }
            InstanceKind::Shim(_) => {}
            _ => return unsup(format!("no body for {inst:?}")),
        }
        let generic: &Body<'tcx> = tcx.instance_mir(inst.def);
        let body: Body<'tcx> =
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, generic.clone()));
        let mut layouts = vec![];
        for l in body.local_decls.iter() {
            layouts.push(tcx.layout_of(self.env.as_query_input(l.ty)).ok());
        }
        let ipdom = postdoms(&body);
        let krate = tcx.crate_name(did.krate).to_string();
        let bi = Rc::new(BodyInfo {
            inst,
            name: tcx.def_path_str_with_args(did, inst.args),
            def_name: tcx.def_path_str(did),
            body,
            layouts,
            ipdom,
            local_crate: did.is_local(),
            is_target: krate == "morton_index",
        });
        self.bodies.borrow_mut().insert(inst, bi.clone());
        Ok(bi)
    }

    // ------------------------------------------------------------------ constants

    pub fn new_global(&mut self, g: GAlloc<'tcx>) -> u32 {
        self.globals.push(g);
        self.globals.len() as u32 - 1
    }
    pub fn fn_ptr(&mut self, inst: Instance<'tcx>) -> PtrV {
        let id = match self.fn_map.get(&inst) {
            Some(i) => *i,
            None => {
                let i = self.new_global(GAlloc::Fn(inst));
                self.fn_map.insert(inst, i);
                i
            }
        };
        PtrV { id: AId::G(id), off: Bv::c(self.pw(), 0) }
    }
    fn vtable_ptr(&mut self, ty: Ty<'tcx>, preds: &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>) -> PtrV {
        let id = match self.vt_map.get(&(ty, preds)) {
            Some(i) => *i,
            None => {
                let i = self.new_global(GAlloc::VTable(ty, preds));
                self.vt_map.insert((ty, preds), i);
                i
            }
        };
        PtrV { id: AId::G(id), off: Bv::c(self.pw(), 0) }
    }
    fn import(&mut self, a: AllocId) -> R<u32> {
        if let Some(i) = self.galloc_map.get(&a) {
            return Ok(*i);
        }
        let id = match self.tcx.global_alloc(a) {
            GlobalAlloc::Function { instance } => {
                let p = self.fn_ptr(instance);
                let AId::G(i) = p.id else { unreachable!() };
                i
            }
            GlobalAlloc::VTable(ty, preds) => {
                let p = self.vtable_ptr(ty, preds);
                let AId::G(i) = p.id else { unreachable!() };
                i
            }
            GlobalAlloc::TypeId { ty } => self.new_global(GAlloc::TypeId(ty)),
            GlobalAlloc::Static(did) => {
                let mem = match self.tcx.eval_static_initializer(did) {
                    Ok(m) => m,
                    Err(_) => return unsup("static initializer"),
                };
                let i = self.new_global(GAlloc::Mem(Rc::new(Alloc::new(0, 1))));
                self.galloc_map.insert(a, i);
                let al = self.import_mem(mem)?;
                self.globals[i as usize] = GAlloc::Mem(Rc::new(al));
                let ty = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if mem.inner().mutability.is_mut() || self.tcx.is_mutable_static(did) || !ty.is_freeze(self.tcx, self.env) {
                    self.mutable.insert(i);
                }
                i
            }
            GlobalAlloc::Memory(mem) => {
                let i = self.new_global(GAlloc::Mem(Rc::new(Alloc::new(0, 1))));
                if mem.inner().mutability.is_mut() {
                    self.mutable.insert(i);
                }
                self.galloc_map.insert(a, i);
                let al = self.import_mem(mem)?;
                self.globals[i as usize] = GAlloc::Mem(Rc::new(al));
                i
            }
        };
        self.galloc_map.insert(a, id);
        Ok(id)
    }
    fn import_mem(&mut self, mem: rustc_middle::mir::interpret::ConstAllocation<'tcx>) -> R<Alloc> {
        let inner = mem.inner();
        let n = inner.len();
        let raw = inner.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
        let mut al = Alloc::new(n, inner.align.bytes());
        for (i, b) in raw.iter().enumerate() {
            al.bytes[i] = AByte::K(*b);
        }
        for i in 0..n {
            let r = rustc_middle::mir::interpret::AllocRange {
                start: Size::from_bytes(i as u64),
                size: Size::from_bytes(1),
            };
            if inner.init_mask().is_range_initialized(r).is_err() {
                al.bytes[i] = AByte::U;
            }
        }
        let ptrs: Vec<(u64, AllocId)> =
            inner.provenance().ptrs().iter().map(|(o, p)| (o.bytes(), p.alloc_id())).collect();
        for (o, p) in ptrs {
            let o = o as usize;
            let mut v = 0u128;
            for i in 0..self.psz {
                let idx = if self.le { self.psz - 1 - i } else { i };
                v = v << 8 | raw[o + idx] as u128;
            }
            let id = self.import(p)?;
            let pv = Rc::new(PtrV { id: AId::G(id), off: Bv::c(self.pw(), v) });
            for i in 0..self.psz {
                al.bytes[o + i] = AByte::P(pv.clone(), i as u8);
            }
        }
        Ok(al)
    }
    pub fn constval(&mut self, cv: ConstValue, ty: Ty<'tcx>) -> R<Opv<'tcx>> {
        let layout = self.layout(ty)?;
        let bytes = match cv {
            ConstValue::ZeroSized => vec![],
            ConstValue::Scalar(Scalar::Int(i)) => self.int_bytes(&Bv::c(i.size().bits() as u32, i.to_bits(i.size()))),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = self.import(prov.alloc_id())?;
                self.ptr_bytes(&PtrV { id: AId::G(id), off: Bv::c(self.pw(), off.bytes() as u128) })
            }
            ConstValue::Slice { alloc_id, meta } => {
                let id = self.import(alloc_id)?;
                let mut b = self.ptr_bytes(&PtrV { id: AId::G(id), off: Bv::c(self.pw(), 0) });
                b.extend(self.int_bytes(&Bv::c(self.pw(), meta as u128)));
                b
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let id = self.import(alloc_id)?;
                let GAlloc::Mem(m) = &self.globals[id as usize] else { return unsup("indirect const") };
                let o = offset.bytes() as usize;
                m.bytes[o..o + layout.size.bytes() as usize].to_vec()
            }
        };
        Ok(Opv { layout, bytes })
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> R<Rc<Opv<'tcx>>> {
        let key = c as *const _ as usize;
        if let Some(r) = self.const_cache.get(&key) {
            return Ok(r.clone());
        }
        let ty = c.const_.ty();
        let cv = match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => v,
            Err(_) => return Err(E::Panic(ExitKind::Panic, "constant fails to evaluate".into())),
        };
        let r = Rc::new(self.constval(cv, ty)?);
        self.const_cache.insert(key, r.clone());
        Ok(r)
    }

    // ------------------------------------------------------------------ bytes <-> scalars

    pub fn int_bytes(&self, v: &Bv) -> Bytes {
        let n = (v.w / 8) as usize;
        let mut out = Vec::with_capacity(n);
        match v.known() {
            Some(k) => {
                for i in 0..n {
                    out.push(AByte::K((k >> (8 * i)) as u8));
                }
            }
            None => {
                for i in 0..n {
                    let b: Vec<Bit> = (0..8).map(|j| v.get((i * 8 + j) as u32)).collect();
                    out.push(byte_of_bits(&b));
                }
            }
        }
        if !self.le {
            out.reverse();
        }
        out
    }
    pub fn ptr_bytes(&self, p: &PtrV) -> Bytes {
        let p = Rc::new(p.clone());
        (0..self.psz).map(|i| AByte::P(p.clone(), i as u8)).collect()
    }
    pub fn sc_bytes(&self, s: &Sc) -> Bytes {
        match s {
            Sc::Int(b) => self.int_bytes(b),
            Sc::Ptr(p) => self.ptr_bytes(p),
        }
    }
    pub fn resolve_byte(&self, st: &State<'tcx>, b: &AByte) -> R<AByte> {
        let AByte::C(alts) = b else { return Ok(b.clone()) };
        let mut live: Vec<(Bit, &AByte)> = vec![];
        let mut cover = F;
        for (g, x) in alts.iter() {
            let h = and(st.pc, *g);
            if h != F {
                live.push((*g, x));
                cover = bdd::or(cover, *g);
            }
        }
        if live.is_empty() {
            return Ok(AByte::U);
        }
        if !implied(st.pc, cover) {
            return Err(E::Split(cover));
        }
        if live.len() == 1 {
            return Ok(live[0].1.clone());
        }
        Err(E::Split(live[0].0))
    }
    pub fn bytes_sc(&self, st: &State<'tcx>, bytes: &[AByte], want_ptr: bool) -> R<Sc> {
        let n = bytes.len();
        // fast path
        if n <= 16 {
            let mut v = 0u128;
            let mut ok = true;
            for i in 0..n {
                match &bytes[i] {
                    AByte::K(k) => {
                        let pos = if self.le { i } else { n - 1 - i };
                        v |= (*k as u128) << (8 * pos);
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return Ok(Sc::Int(Bv::c(n as u32 * 8, v)));
            }
        }
        let has_choice = bytes.iter().any(|b| matches!(b, AByte::C(_)));
        let tmp;
        let bytes = if has_choice {
            let mut v = Vec::with_capacity(n);
            for b in bytes {
                v.push(self.resolve_byte(st, b)?);
            }
            tmp = v;
            &tmp[..]
        } else {
            bytes
        };
        if let AByte::P(p, 0) = &bytes[0] {
            if n == self.psz
                && bytes.iter().enumerate().all(
                    |(i, b)| matches!(b, AByte::P(q, j) if *j as usize == i && (Rc::ptr_eq(p,q) || (q.id==p.id && q.off.same(&p.off)))),
                )
            {
                if want_ptr {
                    return Ok(Sc::Ptr((**p).clone()));
                }
                return Ok(Sc::Int(self.addr(st, p)));
            }
        }
        let mut bits = vec![F; n * 8];
        for i in 0..n {
            let pos = if self.le { i } else { n - 1 - i };
            let b = match &bytes[i] {
                AByte::U => return ub("read of uninitialised memory"),
                AByte::Tok(_) => return unsup("inspecting the digits of an abstract number"),
                AByte::P(p, j) => {
                    let a = self.addr(st, p);
                    let lj = if self.le { *j as u32 } else { self.psz as u32 - 1 - *j as u32 };
                    let mut x = [F; 8];
                    for k in 0..8 {
                        x[k] = a.get(lj * 8 + k as u32);
                    }
                    x
                }
                b => b.int_bits().unwrap(),
            };
            bits[pos * 8..pos * 8 + 8].copy_from_slice(&b);
        }
        Ok(Sc::Int(Bv::from_bits(bits)))
    }
    pub fn bytes_bv(&self, st: &State<'tcx>, bytes: &[AByte]) -> R<Bv> {
        match self.bytes_sc(st, bytes, false)? {
            Sc::Int(b) => Ok(b),
            Sc::Ptr(_) => unreachable!(),
        }
    }
    fn base_addr(&self, _st: &State<'tcx>, id: AId) -> u64 {
        match id {
            AId::L { depth, local, .. } => 0x0100_0000 + ((depth as u64 * 512 + local as u64) % 0x8000) * 4096,
            AId::H(i) => 0x4000_0000 + (i as u64 % 0x4000) * 0x10000,
            AId::G(i) => 0x0010_0000 + (i as u64 % 0x0f00) * 4096,
        }
    }
    /// The abstract address of a pointer (only alignment and inequality of distinct objects matter).
    pub fn addr(&self, st: &State<'tcx>, p: &PtrV) -> Bv {
        let al = self.alloc_align(st, p.id);
        let base = self.base_addr(st, p.id) + al;
        p.off.add(&Bv::c(self.pw(), base as u128))
    }
    fn alloc_align(&self, st: &State<'tcx>, id: AId) -> u64 {
        self.get_alloc(st, id).map(|a| a.align).unwrap_or(16)
    }

    // ------------------------------------------------------------------ memory

    fn get_alloc<'a>(&'a self, st: &'a State<'tcx>, id: AId) -> Option<&'a Rc<Alloc>> {
        match id {
            AId::L { depth, uid, local } => {
                let f = st.frames.get(depth as usize)?;
                if f.uid != uid {
                    return None;
                }
                f.locals[local as usize].as_ref()
            }
            AId::H(i) => st.heap.get(&i),
            AId::G(i) => {
                if let Some(a) = st.heap.get(&(i | 0x8000_0000)) {
                    return Some(a);
                }
                match &self.globals[i as usize] {
                    GAlloc::Mem(m) => Some(m),
                    _ => None,
                }
            }
        }
    }
    fn get_alloc_mut<'a>(&'a self, st: &'a mut State<'tcx>, id: AId) -> R<&'a mut Alloc> {
        match id {
            AId::L { depth, uid, local } => {
                let Some(f) = st.frames.get_mut(depth as usize) else { return ub("dangling stack pointer") };
                if f.uid != uid {
                    return ub("write through a dangling stack pointer");
                }
                let f = Rc::make_mut(f);
                match f.locals[local as usize].as_mut() {
                    Some(a) => Ok(Rc::make_mut(a)),
                    None => ub("write to a dead local"),
                }
            }
            AId::H(i) => match Rc::make_mut(&mut st.heap).get_mut(&i) {
                Some(a) => Ok(Rc::make_mut(a)),
                None => ub("use after free"),
            },
            AId::G(i) => match Rc::make_mut(&mut st.heap).get_mut(&(i | 0x8000_0000)) {
                Some(a) => Ok(Rc::make_mut(a)),
                None => ub("write to constant memory"),
            },
        }
    }
    /// Bounds, liveness and alignment of an access; returns None for zero-sized accesses.
    fn check_access(&mut self, st: &State<'tcx>, a: &Sc, size: u64, align: u64) -> R<Option<(AId, Vec<(u64, Bit)>)>> {
        self.stats.mem_accesses += 1;
        let p = match a {
            Sc::Int(v) => {
                if size == 0 {
                    match v.known() {
                        Some(0) => return ub("null pointer used"),
                        Some(k) if k % align as u128 != 0 => return ub("misaligned pointer used"),
                        _ => return Ok(None),
                    }
                }
                return ub("access through a dangling or null pointer");
            }
            Sc::Ptr(p) => p,
        };
        if size == 0 {
            return Ok(None);
        }
        let Some(al) = self.get_alloc(st, p.id) else {
            return ub("access to memory that is no longer allocated");
        };
        if al.live != T {
            if and(st.pc, al.live) == F {
                return ub("use after free");
            }
            if !implied(st.pc, al.live) {
                return Err(E::Split(al.live));
            }
        }
        // an object lies at the least address its alignment admits; other addresses may be relied on only
        // after the program has looked at the address
        let base = if al.align < align { al.align } else { 0 };
        if base > 0 && self.promised.get(&p.id).map_or(true, |n| *n < align) {
            return ub(format!("access with alignment {align} to memory aligned to {}", al.align));
        }
        let len = al.bytes.len() as u64;
        if let Some(o) = p.off.known() {
            let o = o as u64;
            let o = if self.psz == 4 { o as u32 as u64 } else { o };
            if o > len || size > len - o {
                return ub(format!("access of {size} bytes at offset {o} of an allocation of {len} bytes"));
            }
            if (base + o) % align != 0 {
                return ub("misaligned access");
            }
            return Ok(Some((p.id, vec![(o, T)])));
        }
        let lim = Bv::c(self.pw(), if size > len { 0 } else { (len - size + 1) as u128 });
        let inb = p.off.ult(&lim);
        if and(st.pc, inb) == F {
            return ub(format!("access of {size} bytes outside an allocation of {len} bytes"));
        }
        if !implied(st.pc, inb) {
            return Err(E::Split(inb));
        }
        let Some(vals) = p.off.values(st.pc, 2048) else { return unsup("pointer with too many possible offsets") };
        for (o, _) in &vals {
            if (base + *o as u64) % align != 0 {
                return ub("misaligned access");
            }
        }
        Ok(Some((p.id, vals.into_iter().map(|(o, g)| (o as u64, g)).collect())))
    }
    pub fn read_mem(&mut self, st: &State<'tcx>, a: &Sc, size: u64, align: u64) -> R<Bytes> {
        match self.check_access(st, a, size, align)? {
            None => Ok(vec![]),
            Some((id, offs)) => {
                let al = self.get_alloc(st, id).unwrap();
                let n = size as usize;
                let o0 = offs[0].0 as usize;
                let mut r = al.bytes[o0..o0 + n].to_vec();
                for (o, g) in &offs[1..] {
                    let o = *o as usize;
                    for i in 0..n {
                        r[i] = AByte::ite(*g, &al.bytes[o + i], &r[i]);
                    }
                }
                Ok(r)
            }
        }
    }
    pub fn write_mem(&mut self, st: &mut State<'tcx>, a: &Sc, bytes: &[AByte], align: u64) -> R<()> {
        match self.check_access(st, a, bytes.len() as u64, align)? {
            None => Ok(()),
            Some((id, offs)) => {
                if let AId::G(i) = id {
                    // a static: copy on first write
                    if !st.heap.contains_key(&(i | 0x8000_0000)) {
                        if !self.mutable.contains(&i) {
                            return ub("write to constant memory");
                        }
                        let GAlloc::Mem(m) = &self.globals[i as usize] else { return ub("write to constant memory") };
                        Rc::make_mut(&mut st.heap).insert(i | 0x8000_0000, m.clone());
                        self.written.insert(i);
                    }
                }
                let al = self.get_alloc_mut(st, id)?;
                if offs.len() == 1 {
                    let o = offs[0].0 as usize;
                    al.bytes[o..o + bytes.len()].clone_from_slice(bytes);
                } else {
                    for (o, g) in &offs {
                        let o = *o as usize;
                        for i in 0..bytes.len() {
                            al.bytes[o + i] = AByte::ite(*g, &bytes[i], &al.bytes[o + i]);
                        }
                    }
                }
                Ok(())
            }
        }
    }
    pub fn heap_alloc(&mut self, st: &mut State<'tcx>, bytes: Bytes, align: u64) -> PtrV {
        let id = self.next_heap;
        self.next_heap += 1;
        Rc::make_mut(&mut st.heap).insert(id, Rc::new(Alloc { bytes, align, live: T }));
        PtrV { id: AId::H(id), off: Bv::c(self.pw(), 0) }
    }
    /// Report the heap memory that is still allocated in a final state and not reachable from a static.
    fn leaks(&mut self, st: &State<'tcx>) {
        let mut work: Vec<u32> = st.heap.keys().copied().filter(|k| k & 0x8000_0000 != 0).collect();
        let mut seen: std::collections::HashSet<u32> = work.iter().copied().collect();
        fn ptrs(b: &AByte, f: &mut dyn FnMut(AId)) {
            match b {
                AByte::P(p, _) => f(p.id),
                AByte::C(v) => v.iter().for_each(|x| ptrs(&x.1, f)),
                _ => {}
            }
        }
        while let Some(k) = work.pop() {
            let Some(a) = st.heap.get(&k) else { continue };
            for b in &a.bytes {
                ptrs(b, &mut |id| {
                    if let AId::H(i) = id {
                        if seen.insert(i) {
                            work.push(i)
                        }
                    }
                });
            }
        }
        let mut left: Vec<(u32, Bit)> = st.heap.iter().map(|(k, a)| (*k, and(st.pc, a.live))).collect();
        left.sort();
        for (k, pc) in left {
            self.stats.heap_left += 1;
            if pc == F || seen.contains(&k) {
                continue;
            }
            if let Some((site, chain)) = self.heap_sites.get(&k).cloned() {
                let msg = "memory allocated here is never freed".to_string();
                if self.exits.iter().any(|e| e.kind == ExitKind::Leak && e.site == site && e.chain == chain) {
                    continue;
                }
                self.exits.push(Exit { kind: ExitKind::Leak, msg, site, chain, pc, notes: st.notes.clone() });
            }
        }
    }
    pub fn heap_free(&mut self, st: &mut State<'tcx>, p: &Sc) -> R<()> {
        let Sc::Ptr(p) = p else { return ub("free of a dangling pointer") };
        let AId::H(i) = p.id else { return ub("free of non-heap memory") };
        if p.off.known() != Some(0) {
            return ub("free of an interior pointer");
        }
        let Some(al) = st.heap.get(&i) else { return ub("double free") };
        if and(st.pc, al.live) == F {
            return ub("double free");
        }
        if !implied(st.pc, al.live) {
            let g = al.live;
            return Err(E::Split(g));
        }
        Rc::make_mut(&mut st.heap).remove(&i);
        Ok(())
    }

    // ------------------------------------------------------------------ places

    fn local_alloc(&mut self, st: &mut State<'tcx>, local: mir::Local) -> R<MPlace<'tcx>> {
        let depth = st.frames.len() - 1;
        let f = &st.frames[depth];
        let Some(layout) = f.bi.layouts[local.as_usize()] else { return unsup("unsized local") };
        let uid = f.uid;
        if f.locals[local.as_usize()].is_none() {
            let f = Rc::make_mut(&mut st.frames[depth]);
            f.locals[local.as_usize()] =
                Some(Rc::new(Alloc::new(layout.size.bytes() as usize, layout.align.abi.bytes())));
        }
        Ok(MPlace {
            addr: Sc::Ptr(PtrV {
                id: AId::L { depth: depth as u32, uid, local: local.as_u32() },
                off: Bv::c(self.pw(), 0),
            }),
            meta: None,
            layout,
        })
    }
    pub fn offset_sc(&self, a: &Sc, o: &Bv) -> Sc {
        match a {
            Sc::Int(v) => Sc::Int(v.add(o)),
            Sc::Ptr(p) => Sc::Ptr(PtrV { id: p.id, off: p.off.add(o) }),
        }
    }
    fn off_c(&self, a: &Sc, o: u64) -> Sc {
        if o == 0 {
            return a.clone();
        }
        self.offset_sc(a, &Bv::c(self.pw(), o as u128))
    }
    pub fn field(&self, p: &MPlace<'tcx>, i: usize) -> R<MPlace<'tcx>> {
        let cx = self.lcx();
        let fl = p.layout.field(&cx, i);
        let off = p.layout.fields.offset(i).bytes();
        let meta = if fl.is_unsized() { p.meta.clone() } else { None };
        if meta.is_some() && matches!(self.tcx.struct_tail_for_codegen(fl.ty, self.env).kind(), ty::Dynamic(..)) && off != 0 {
            return unsup("dyn field at an offset");
        }
        Ok(MPlace { addr: self.off_c(&p.addr, off), meta, layout: fl })
    }
    pub fn deref(&mut self, st: &State<'tcx>, p: &MPlace<'tcx>) -> R<MPlace<'tcx>> {
        let b = self.read_place(st, p)?;
        self.deref_bytes(st, &b, p.layout.ty)
    }
    pub fn deref_bytes(&mut self, st: &State<'tcx>, b: &[AByte], pty: Ty<'tcx>) -> R<MPlace<'tcx>> {
        let Some(ty) = pty.builtin_deref(true) else { return unsup(format!("deref of {pty}")) };
        let layout = self.layout(ty)?;
        let addr = self.bytes_sc(st, &b[..self.psz], true)?;
        let meta = if b.len() > self.psz {
            let is_dyn = matches!(self.tcx.struct_tail_for_codegen(ty, self.env).kind(), ty::Dynamic(..));
            Some(self.bytes_sc(st, &b[self.psz..], is_dyn)?)
        } else {
            None
        };
        Ok(MPlace { addr, meta, layout })
    }
    fn eval_place(&mut self, st: &mut State<'tcx>, pl: &Place<'tcx>) -> R<MPlace<'tcx>> {
        let mut p = self.local_alloc(st, pl.local)?;
        for e in pl.projection.iter() {
            p = self.project(st, p, e)?;
        }
        Ok(p)
    }
    fn slice_len(&self, p: &MPlace<'tcx>) -> R<Bv> {
        match (p.layout.ty.kind(), &p.meta) {
            (_, Some(Sc::Int(n))) => Ok(n.clone()),
            (ty::Array(..), _) => match p.layout.fields {
                rustc_abi::FieldsShape::Array { count, .. } => Ok(Bv::c(self.pw(), count as u128)),
                _ => unsup("array layout"),
            },
            _ => unsup("length of non-slice"),
        }
    }
    fn elem_layout(&self, p: &MPlace<'tcx>) -> R<TyAndLayout<'tcx>> {
        match p.layout.ty.kind() {
            ty::Array(t, _) | ty::Slice(t) => self.layout(*t),
            ty::Str => self.layout(self.tcx.types.u8),
            _ => unsup("index into non-array"),
        }
    }
    fn project(
        &mut self,
        st: &mut State<'tcx>,
        p: MPlace<'tcx>,
        e: ProjectionElem<mir::Local, Ty<'tcx>>,
    ) -> R<MPlace<'tcx>> {
        match e {
            ProjectionElem::Deref => self.deref(st, &p),
            ProjectionElem::Field(i, _) => self.field(&p, i.as_usize()),
            ProjectionElem::Downcast(_, v) => {
                let cx = self.lcx();
                Ok(MPlace { layout: p.layout.for_variant(&cx, v), ..p })
            }
            ProjectionElem::Index(l) => {
                let ip = self.local_alloc(st, l)?;
                let ib = self.read_place(st, &ip)?;
                let i = self.bytes_bv(st, &ib)?;
                let len = self.slice_len(&p)?;
                let inb = i.ult(&len);
                if and(st.pc, inb) == F {
                    return ub("index out of bounds without a check");
                }
                if !implied(st.pc, inb) {
                    return Err(E::Split(inb));
                }
                let el = self.elem_layout(&p)?;
                let off = i.mul(&Bv::c(self.pw(), el.size.bytes() as u128));
                Ok(MPlace { addr: self.offset_sc(&p.addr, &off), meta: None, layout: el })
            }
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                let el = self.elem_layout(&p)?;
                let len = self.slice_len(&p)?;
                let i = if from_end { len.sub(&Bv::c(self.pw(), offset as u128)) } else { Bv::c(self.pw(), offset as u128) };
                let off = i.mul(&Bv::c(self.pw(), el.size.bytes() as u128));
                Ok(MPlace { addr: self.offset_sc(&p.addr, &off), meta: None, layout: el })
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                let el = self.elem_layout(&p)?;
                let len = self.slice_len(&p)?;
                let end = if from_end { len.sub(&Bv::c(self.pw(), to as u128)) } else { Bv::c(self.pw(), to as u128) };
                let n = end.sub(&Bv::c(self.pw(), from as u128));
                let addr = self.off_c(&p.addr, from * el.size.bytes());
                match p.layout.ty.kind() {
                    ty::Array(t, _) => {
                        let Some(n) = n.known() else { return unsup("subslice") };
                        let aty = Ty::new_array(self.tcx, *t, n as u64);
                        Ok(MPlace { addr, meta: None, layout: self.layout(aty)? })
                    }
                    _ => Ok(MPlace { addr, meta: Some(Sc::Int(n)), layout: p.layout }),
                }
            }
            ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => {
                Ok(MPlace { layout: self.layout(t)?, ..p })
            }
            e => unsup(format!("projection {e:?}")),
        }
    }
    pub fn size_align(&mut self, st: &State<'tcx>, p: &MPlace<'tcx>) -> R<(u64, u64)> {
        if p.layout.is_sized() {
            return Ok((p.layout.size.bytes(), p.layout.align.abi.bytes()));
        }
        match p.layout.ty.kind() {
            ty::Slice(_) | ty::Str => {
                let el = self.elem_layout(p)?;
                let n = self.slice_len(p)?;
                let n = self.concrete(st, &n)?;
                Ok((n as u64 * el.size.bytes(), el.align.abi.bytes()))
            }
            ty::Dynamic(..) => {
                let Some(Sc::Ptr(v)) = &p.meta else { return ub("bad vtable") };
                let AId::G(i) = v.id else { return ub("bad vtable") };
                let GAlloc::VTable(t, _) = &self.globals[i as usize] else { return ub("bad vtable") };
                let l = self.layout(*t)?;
                Ok((l.size.bytes(), l.align.abi.bytes()))
            }
            ty::Adt(..) | ty::Tuple(..) => {
                // the sized fields, then the last field behind them
                let n = p.layout.fields.count();
                let cx = self.lcx();
                let last = p.layout.field(&cx, n - 1);
                let off = p.layout.fields.offset(n - 1).bytes();
                let q = MPlace { addr: p.addr.clone(), layout: last, meta: p.meta.clone() };
                let (s, a) = self.size_align(st, &q)?;
                let al = p.layout.align.abi.bytes().max(a);
                let off = (off + a - 1) / a * a;
                Ok(((off + s + al - 1) / al * al, al))
            }
            _ => unsup(format!("size of unsized {}", p.layout.ty)),
        }
    }
    /// A single concrete value, splitting the state if several are possible.
    pub fn concrete(&self, st: &State<'tcx>, v: &Bv) -> R<u128> {
        if let Some(k) = v.known() {
            return Ok(k);
        }
        // find one possible value
        let mut g = st.pc;
        let mut val = 0u128;
        for i in (0..v.w).rev() {
            let b = v.get(i);
            let g1 = and(g, not(b));
            if g1 != F {
                g = g1;
            } else {
                val |= 1 << i;
                g = and(g, b);
            }
        }
        let is = v.eq(&Bv::c(v.w, val));
        if implied(st.pc, is) {
            return Ok(val);
        }
        Err(E::Split(is))
    }
    pub fn read_place(&mut self, st: &State<'tcx>, p: &MPlace<'tcx>) -> R<Bytes> {
        let (s, a) = self.size_align(st, p)?;
        if let Sc::Ptr(PtrV { id: AId::L { depth, uid, local }, off }) = &p.addr {
            // fast path: local variable
            if let (Some(f), Some(o)) = (st.frames.get(*depth as usize), off.known()) {
                if f.uid == *uid {
                    if let Some(al) = &f.locals[*local as usize] {
                        let o = o as usize;
                        if o + s as usize <= al.bytes.len() {
                            return Ok(al.bytes[o..o + s as usize].to_vec());
                        }
                    }
                }
            }
        }
        self.read_mem(st, &p.addr, s, a)
    }
    pub fn write_place(&mut self, st: &mut State<'tcx>, p: &MPlace<'tcx>, b: &[AByte]) -> R<()> {
        let a = p.layout.align.abi.bytes();
        self.write_mem(st, &p.addr, b, a)
    }
    pub fn read_bv(&mut self, st: &State<'tcx>, p: &MPlace<'tcx>) -> R<Bv> {
        let b = self.read_place(st, p)?;
        self.bytes_bv(st, &b)
    }
    pub fn place_ptr_bytes(&self, p: &MPlace<'tcx>) -> Bytes {
        let mut b = self.sc_bytes(&p.addr);
        if let Some(m) = &p.meta {
            b.extend(self.sc_bytes(m));
        }
        b
    }

    // ------------------------------------------------------------------ discriminants

    fn valid_range(&self, v: &Bv, s: &rustc_abi::Scalar) -> Bit {
        let r = s.valid_range(&self.lcx());
        let lo = Bv::c(v.w, r.start);
        let len = Bv::c(v.w, r.end.wrapping_sub(r.start) & mask(v.w));
        not(len.ult(&v.sub(&lo)))
    }
    /// Discriminant value of the enum at `p` as an integer of the discriminant type.
    pub fn read_discr(&mut self, st: &State<'tcx>, p: &MPlace<'tcx>) -> R<Opv<'tcx>> {
        let ty = p.layout.ty;
        let dty = ty.discriminant_ty(self.tcx);
        let dl = self.layout(dty)?;
        let dw = dl.size.bits() as u32;
        let dval = |this: &Self, v: VariantIdx| -> Bv {
            match ty.discriminant_for_variant(this.tcx, v) {
                Some(d) => Bv::c(dw, d.val),
                None => Bv::c(dw, 0),
            }
        };
        let out = match &p.layout.variants {
            Variants::Empty => return ub("discriminant of an uninhabited enum"),
            Variants::Single { index } => dval(self, *index),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let fp = self.field(p, tag_field.as_usize())?;
                let tb = self.read_place(st, &fp)?;
                let is_ptr_tag = matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_));
                let sc = self.bytes_sc(st, &tb, is_ptr_tag)?;
                let tv = match sc {
                    Sc::Int(v) => v,
                    Sc::Ptr(q) => self.addr(st, &q),
                };
                let vr = self.valid_range(&tv, tag);
                if and(st.pc, vr) == F {
                    return ub(format!("invalid enum tag in a value of type {ty}"));
                }
                if !implied(st.pc, vr) {
                    return Err(E::Split(vr));
                }
                match tag_encoding {
                    TagEncoding::Direct => {
                        let signed = matches!(tag.primitive(), rustc_abi::Primitive::Int(_, true));
                        let d = if signed { tv.sext(dw) } else { tv.zext(dw) };
                        if let ty::Adt(adt, _) = ty.kind() {
                            let mut any = F;
                            for (_, dd) in adt.discriminants(self.tcx) {
                                any = bdd::or(any, d.eq(&Bv::c(dw, dd.val)));
                            }
                            if and(st.pc, any) == F {
                                return ub(format!("invalid enum tag in a value of type {ty}"));
                            }
                            if !implied(st.pc, any) {
                                return Err(E::Split(any));
                            }
                        }
                        d
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let vs = niche_variants.start.as_u32();
                        let ve = niche_variants.last.as_u32();
                        let rel = tv.sub(&Bv::c(tv.w, *niche_start));
                        let is_niche = not(Bv::c(tv.w, (ve - vs) as u128).ult(&rel));
                        let idx = if tv.w >= dw { rel.trunc(dw) } else { rel.zext(dw) }.add(&Bv::c(dw, vs as u128));
                        Bv::ite(is_niche, &idx, &Bv::c(dw, untagged_variant.as_u32() as u128))
                    }
                }
            }
        };
        Ok(Opv { layout: dl, bytes: self.int_bytes(&out) })
    }
    pub fn write_discr(&mut self, st: &mut State<'tcx>, p: &MPlace<'tcx>, v: VariantIdx) -> R<()> {
        match &p.layout.variants {
            Variants::Empty | Variants::Single { .. } => Ok(()),
            Variants::Multiple { tag, tag_encoding: TagEncoding::Direct, tag_field, .. } => {
                let d = p.layout.ty.discriminant_for_variant(self.tcx, v).unwrap();
                let w = tag.size(&self.lcx()).bits() as u32;
                let fp = self.field(p, tag_field.as_usize())?;
                let b = self.int_bytes(&Bv::c(w, d.val));
                self.write_place(st, &fp, &b)
            }
            Variants::Multiple {
                tag,
                tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start },
                tag_field,
                ..
            } => {
                if *untagged_variant == v {
                    return Ok(());
                }
                let w = tag.size(&self.lcx()).bits() as u32;
                let rel = (v.as_u32() - niche_variants.start.as_u32()) as u128;
                let fp = self.field(p, tag_field.as_usize())?;
                let b = self.int_bytes(&Bv::c(w, rel.wrapping_add(*niche_start)));
                self.write_place(st, &fp, &b)
            }
        }
    }

    // ------------------------------------------------------------------ operands and rvalues

    pub fn operand(&mut self, st: &mut State<'tcx>, op: &Operand<'tcx>) -> R<Opv<'tcx>> {
        match op {
            Operand::Copy(p) | Operand::Move(p) => {
                let mp = self.eval_place(st, p)?;
                let bytes = self.read_place(st, &mp)?;
                Ok(Opv { layout: mp.layout, bytes })
            }
            Operand::Constant(c) => Ok((*self.constant(c)?).clone()),
            Operand::RuntimeChecks(c) => {
                let v = match c {
                    mir::RuntimeChecks::UbChecks => true,
                    mir::RuntimeChecks::ContractChecks => false,
                    mir::RuntimeChecks::OverflowChecks => true,
                };
                Ok(Opv { layout: self.layout(self.tcx.types.bool)?, bytes: vec![AByte::K(v as u8)] })
            }
        }
    }
    pub fn op_bv(&mut self, st: &mut State<'tcx>, op: &Operand<'tcx>) -> R<Bv> {
        let o = self.operand(st, op)?;
        self.bytes_bv(st, &o.bytes)
    }
    pub fn is_ptr_ty(&self, ty: Ty<'tcx>) -> bool {
        matches!(ty.kind(), ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..))
    }
    fn fixed_bits(&self, st: &State<'tcx>, v: Bv) -> Bv {
        if st.pc == T || v.known().is_some() {
            return v;
        }
        let bits = (0..v.w)
            .map(|i| {
                let b = v.get(i);
                if and(st.pc, b) == F {
                    F
                } else if implied(st.pc, b) {
                    T
                } else {
                    b
                }
            })
            .collect();
        Bv::from_bits(bits)
    }
    pub fn binop(&mut self, st: &State<'tcx>, op: BinOp, l: &Opv<'tcx>, r: &Opv<'tcx>, dest: &TyAndLayout<'tcx>) -> R<Bytes> {
        let lt = l.layout.ty;
        if self.is_ptr_ty(lt) {
            return self.ptr_binop(st, op, l, r);
        }
        if l.bytes.is_empty() {
            // comparisons of zero-sized values
            let v = match op {
                BinOp::Eq | BinOp::Le | BinOp::Ge => true,
                _ => false,
            };
            return Ok(vec![AByte::K(v as u8)]);
        }
        if matches!(lt.kind(), ty::Float(_)) {
            return self.float_binop(st, op, l, r);
        }
        let signed = lt.is_signed();
        let a = self.bytes_bv(st, &l.bytes)?;
        let b = self.bytes_bv(st, &r.bytes)?;
        // bits the path fixes make these operations cheaper
        let (a, b) = if matches!(op, BinOp::Mul | BinOp::MulUnchecked | BinOp::MulWithOverflow | BinOp::Div | BinOp::Rem) {
            (self.fixed_bits(st, a), self.fixed_bits(st, b))
        } else {
            (a, b)
        };
        let w = a.w;
        let rs = r.layout.ty.is_signed();
        Ok(match op {
            BinOp::BitAnd => self.int_bytes(&a.and(&b)),
            BinOp::BitOr => self.int_bytes(&a.or(&b)),
            BinOp::BitXor => self.int_bytes(&a.xor(&b)),
            BinOp::Add => self.int_bytes(&a.add(&b)),
            BinOp::Sub => self.int_bytes(&a.sub(&b)),
            BinOp::Mul => self.int_bytes(&a.mul(&b)),
            BinOp::AddUnchecked | BinOp::SubUnchecked | BinOp::MulUnchecked => {
                let o = match op {
                    BinOp::AddUnchecked => BinOp::Add,
                    BinOp::SubUnchecked => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let (v, ov) = self.arith_ov(o, &a, &b, signed)?;
                if and(st.pc, ov) != F {
                    if implied(st.pc, ov) {
                        return ub("unchecked arithmetic overflows");
                    }
                    return Err(E::Split(ov));
                }
                self.int_bytes(&v)
            }
            BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => {
                let o = match op {
                    BinOp::AddWithOverflow => BinOp::Add,
                    BinOp::SubWithOverflow => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let (v, ov) = self.arith_ov(o, &a, &b, signed)?;
                let mut out = vec![AByte::U; dest.size.bytes() as usize];
                let o0 = dest.fields.offset(0).bytes() as usize;
                let o1 = dest.fields.offset(1).bytes() as usize;
                for (i, x) in self.int_bytes(&v).into_iter().enumerate() {
                    out[o0 + i] = x;
                }
                out[o1] = self.int_bytes(&Bv::bool8(ov)).pop().unwrap();
                out
            }
            BinOp::Div | BinOp::Rem => {
                let z = b.is_zero();
                if and(st.pc, z) != F {
                    if implied(st.pc, z) {
                        return ub("division by zero");
                    }
                    return Err(E::Split(z));
                }
                let (q, m) = if signed {
                    let (sa, sb) = (a.get(w - 1), b.get(w - 1));
                    let zero = Bv::c(w, 0);
                    let aa = Bv::ite(sa, &zero.sub(&a), &a);
                    let bb = Bv::ite(sb, &zero.sub(&b), &b);
                    let (q, m) = aa.udivrem(&bb);
                    (Bv::ite(bdd::xor(sa, sb), &zero.sub(&q), &q), Bv::ite(sa, &zero.sub(&m), &m))
                } else {
                    a.udivrem(&b)
                };
                self.int_bytes(if op == BinOp::Div { &q } else { &m })
            }
            BinOp::Shl | BinOp::Shr | BinOp::ShlUnchecked | BinOp::ShrUnchecked => {
                let left = matches!(op, BinOp::Shl | BinOp::ShlUnchecked);
                if matches!(op, BinOp::ShlUnchecked | BinOp::ShrUnchecked) {
                    let ok = b.ult(&Bv::c(b.w, w as u128));
                    let ok = if b.w < 8 { T } else { ok };
                    if and(st.pc, ok) == F {
                        return ub("unchecked shift by too much");
                    }
                    if !implied(st.pc, ok) {
                        return Err(E::Split(ok));
                    }
                }
                let _ = rs;
                let m = b.and(&Bv::c(b.w, (w - 1) as u128));
                self.int_bytes(&a.shift(&m, left, signed))
            }
            BinOp::Eq => self.int_bytes(&Bv::bool8(a.eq(&b))),
            BinOp::Ne => self.int_bytes(&Bv::bool8(not(a.eq(&b)))),
            BinOp::Lt => self.int_bytes(&Bv::bool8(a.lt(&b, signed))),
            BinOp::Ge => self.int_bytes(&Bv::bool8(not(a.lt(&b, signed)))),
            BinOp::Gt => self.int_bytes(&Bv::bool8(b.lt(&a, signed))),
            BinOp::Le => self.int_bytes(&Bv::bool8(not(b.lt(&a, signed)))),
            BinOp::Cmp => {
                let lt = a.lt(&b, signed);
                let eq = a.eq(&b);
                self.int_bytes(&cmp_bv(lt, eq))
            }
            BinOp::Offset => return unsup("offset of non-pointer"),
        })
    }
    pub fn arith_ov(&self, op: BinOp, a: &Bv, b: &Bv, signed: bool) -> R<(Bv, Bit)> {
        let w = a.w;
        Ok(match op {
            BinOp::Add => {
                let (s, c) = a.addc(b, F);
                if signed {
                    let (x, y, z) = (a.get(w - 1), b.get(w - 1), s.get(w - 1));
                    let ov = and(not(bdd::xor(x, y)), bdd::xor(x, z));
                    (s, ov)
                } else {
                    (s, c)
                }
            }
            BinOp::Sub => {
                let (s, c) = a.addc(&b.not(), T);
                if signed {
                    let (x, y, z) = (a.get(w - 1), b.get(w - 1), s.get(w - 1));
                    let ov = and(bdd::xor(x, y), bdd::xor(x, z));
                    (s, ov)
                } else {
                    (s, not(c))
                }
            }
            BinOp::Mul => {
                if signed {
                    if w > 64 {
                        return unsup("wide signed multiplication");
                    }
                    let p = a.sext(2 * w).mul(&b.sext(2 * w));
                    let r = p.trunc(w);
                    let ov = not(r.sext(2 * w).eq(&p));
                    (r, ov)
                } else {
                    a.umul_ov(b)
                }
            }
            _ => unreachable!(),
        })
    }
    fn ptr_binop(&mut self, st: &State<'tcx>, op: BinOp, l: &Opv<'tcx>, r: &Opv<'tcx>) -> R<Bytes> {
        if op == BinOp::Offset {
            let p = self.bytes_sc(st, &l.bytes[..self.psz], true)?;
            let n = self.bytes_bv(st, &r.bytes)?;
            let pt = l.layout.ty.builtin_deref(true).unwrap();
            let sz = self.layout(pt)?.size.bytes();
            let signed = r.layout.ty.is_signed();
            let q = self.ptr_offset(st, &p, &n, signed, sz, true)?;
            return Ok(self.sc_bytes(&q));
        }
        let ps = self.psz;
        let (la, ra) = (self.bytes_sc(st, &l.bytes[..ps], true)?, self.bytes_sc(st, &r.bytes[..ps], true)?);
        let (a, b) = match (&la, &ra) {
            (Sc::Ptr(p), Sc::Ptr(q)) if p.id == q.id => (p.off.clone(), q.off.clone()),
            _ => (self.sc_addr(st, &la), self.sc_addr(st, &ra)),
        };
        let (mut eq, lt) = (a.eq(&b), a.ult(&b));
        if l.bytes.len() > ps {
            if !matches!(op, BinOp::Eq | BinOp::Ne) {
                return unsup("ordering of wide pointers");
            }
            let m = self.bytes_bv(st, &l.bytes[ps..])?.eq(&self.bytes_bv(st, &r.bytes[ps..])?);
            eq = and(eq, m);
        }
        let v = match op {
            BinOp::Eq => eq,
            BinOp::Ne => not(eq),
            BinOp::Lt => lt,
            BinOp::Ge => not(lt),
            BinOp::Le => bdd::or(lt, eq),
            BinOp::Gt => not(bdd::or(lt, eq)),
            BinOp::Cmp => return Ok(self.int_bytes(&cmp_bv(lt, eq))),
            _ => return unsup(format!("pointer operation {op:?}")),
        };
        Ok(self.int_bytes(&Bv::bool8(v)))
    }
    pub fn sc_addr(&self, st: &State<'tcx>, s: &Sc) -> Bv {
        match s {
            Sc::Int(v) => v.clone(),
            Sc::Ptr(p) => self.addr(st, p),
        }
    }
    pub fn ptr_offset(&mut self, st: &State<'tcx>, p: &Sc, n: &Bv, signed: bool, sz: u64, inbounds: bool) -> R<Sc> {
        let _ = signed;
        let d = n.mul(&Bv::c(self.pw(), sz as u128));
        let q = self.offset_sc(p, &d);
        if inbounds && sz != 0 {
            match &q {
                Sc::Ptr(x) => {
                    let Some(al) = self.get_alloc(st, x.id) else {
                        return ub("pointer arithmetic on freed memory");
                    };
                    let lim = Bv::c(self.pw(), al.bytes.len() as u128);
                    let ok = not(lim.ult(&x.off));
                    if and(st.pc, ok) == F {
                        return ub("pointer arithmetic leaves the allocation");
                    }
                    if !implied(st.pc, ok) {
                        return Err(E::Split(ok));
                    }
                }
                Sc::Int(_) => {
                    let z = d.is_zero();
                    if and(st.pc, z) == F {
                        return ub("arithmetic on a dangling pointer");
                    }
                    if !implied(st.pc, z) {
                        return Err(E::Split(z));
                    }
                }
            }
        }
        Ok(q)
    }
    pub fn validity(&mut self, st: &State<'tcx>, v: &Opv<'tcx>) -> R<()> {
        if let BackendRepr::Scalar(s) = v.layout.backend_repr {
            if let rustc_abi::Scalar::Initialized { value, .. } = s {
                if matches!(value, rustc_abi::Primitive::Pointer(_)) {
                    return Ok(());
                }
                if s.is_always_valid(&self.lcx()) {
                    return Ok(());
                }
                if v.bytes.len() != v.layout.size.bytes() as usize || v.layout.is_uninhabited() {
                    return Ok(());
                }
                let sz = s.size(&self.lcx()).bytes() as usize;
                if sz != v.bytes.len() {
                    return Ok(());
                }
                let x = self.bytes_bv(st, &v.bytes)?;
                let ok = self.valid_range(&x, &s);
                if and(st.pc, ok) == F {
                    return ub(format!("invalid value of type {}", v.layout.ty));
                }
                if !implied(st.pc, ok) {
                    return Err(E::Split(ok));
                }
            }
        }
        Ok(())
    }
    fn unsize_ptr(&mut self, st: &State<'tcx>, src: &Opv<'tcx>, dst: TyAndLayout<'tcx>) -> R<Bytes> {
        match (src.layout.ty.builtin_deref(true), dst.ty.builtin_deref(true)) {
            (Some(s), Some(d)) => {
                let (st_, dt) = self.tcx.struct_lockstep_tails_for_codegen(s, d, self.env);
                let mut b = src.bytes[..self.psz].to_vec();
                match (st_.kind(), dt.kind()) {
                    (ty::Array(_, _), ty::Slice(_)) => {
                        let n = match self.layout(st_)?.fields {
                            rustc_abi::FieldsShape::Array { count, .. } => count,
                            _ => return unsup("array"),
                        };
                        b.extend(self.int_bytes(&Bv::c(self.pw(), n as u128)));
                        Ok(b)
                    }
                    (ty::Dynamic(..), ty::Dynamic(..)) => Ok(src.bytes.clone()),
                    (_, ty::Dynamic(preds, _)) => {
                        let v = self.vtable_ptr(st_, preds);
                        b.extend(self.ptr_bytes(&v));
                        Ok(b)
                    }
                    _ => unsup("unsize"),
                }
            }
            _ => {
                // struct containing exactly one pointer field that changes
                let (ty::Adt(..), ty::Adt(..)) = (src.layout.ty.kind(), dst.ty.kind()) else {
                    return unsup("unsize of non-adt");
                };
                let cx = self.lcx();
                let mut out = vec![AByte::U; dst.size.bytes() as usize];
                for i in 0..src.layout.fields.count() {
                    let sf = src.layout.field(&cx, i);
                    let df = dst.field(&cx, i);
                    if sf.size.bytes() == 0 && df.size.bytes() == 0 {
                        continue;
                    }
                    let so = src.layout.fields.offset(i).bytes() as usize;
                    let dof = dst.fields.offset(i).bytes() as usize;
                    let sb = src.bytes[so..so + sf.size.bytes() as usize].to_vec();
                    let r = if sf.ty == df.ty { sb } else { self.unsize_ptr(st, &Opv { layout: sf, bytes: sb }, df)? };
                    for (k, x) in r.into_iter().enumerate() {
                        out[dof + k] = x;
                    }
                }
                Ok(out)
            }
        }
    }
    fn cast(&mut self, st: &mut State<'tcx>, k: &CastKind, op: &Operand<'tcx>, ty: Ty<'tcx>) -> R<Opv<'tcx>> {
        let layout = self.layout(ty)?;
        let src = self.operand(st, op)?;
        let bytes = match k {
            CastKind::IntToInt => {
                let v = self.bytes_bv(st, &src.bytes)?;
                let w = layout.size.bits() as u32;
                let r = if src.layout.ty.is_signed() { v.sext(w) } else { v.zext(w) };
                self.int_bytes(&r)
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                let n = layout.size.bytes() as usize;
                if src.bytes.len() < n {
                    return unsup("pointer cast adds metadata");
                }
                src.bytes[..n].to_vec()
            }
            CastKind::PointerExposeProvenance => {
                let v = self.bytes_bv(st, &src.bytes[..self.psz])?;
                self.int_bytes(&v.zext(layout.size.bits() as u32))
            }
            CastKind::PointerWithExposedProvenance => {
                let v = self.bytes_bv(st, &src.bytes)?;
                self.int_bytes(&v.zext(self.pw()))
            }
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => {
                if src.bytes.len() != layout.size.bytes() as usize {
                    return ub("transmute between different sizes");
                }
                let o = Opv { layout, bytes: src.bytes };
                if matches!(k, CastKind::Transmute) {
                    self.validity(st, &o)?;
                }
                return Ok(o);
            }
            CastKind::PointerCoercion(c, _) => match c {
                PointerCoercion::ReifyFnPointer(_) => {
                    let ty::FnDef(did, args) = *src.layout.ty.kind() else { return unsup("reify") };
                    let Some(args) = args.no_bound_vars() else { return unsup("bound args") };
                    let inst = match Instance::resolve_for_fn_ptr(self.tcx, self.env, did, args) {
                        Some(i) => i,
                        None => return unsup("resolve fn ptr"),
                    };
                    let p = self.fn_ptr(inst);
                    self.ptr_bytes(&p)
                }
                PointerCoercion::ClosureFnPointer(_) => {
                    let ty::Closure(did, args) = *src.layout.ty.kind() else { return unsup("closure ptr") };
                    let inst = Instance::resolve_closure(self.tcx, did, args, ty::ClosureKind::FnOnce);
                    let p = self.fn_ptr(inst);
                    self.ptr_bytes(&p)
                }
                PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer => {
                    src.bytes
                }
                PointerCoercion::Unsize => self.unsize_ptr(st, &src, layout)?,
            },
            CastKind::IntToFloat => self.int_to_float(st, &src, ty)?,
            CastKind::FloatToInt => self.float_to_int(st, &src, ty, layout.size.bits() as u32)?,
            CastKind::FloatToFloat => self.float_to_float(st, &src, ty)?,
            _ => return unsup(format!("cast {k:?}")),
        };
        Ok(Opv { layout, bytes })
    }
    fn rvalue(&mut self, st: &mut State<'tcx>, rv: &Rvalue<'tcx>, dest: &Place<'tcx>) -> R<()> {
        match rv {
            Rvalue::Use(op, _) => {
                let v = self.operand(st, op)?;
                let d = self.eval_place(st, dest)?;
                self.write_place(st, &d, &v.bytes)
            }
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => {
                let mp = self.eval_place(st, p)?;
                let b = self.read_place(st, &mp)?;
                let d = self.eval_place(st, dest)?;
                self.write_place(st, &d, &b)
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let mp = self.eval_place(st, p)?;
                let b = self.place_ptr_bytes(&mp);
                let d = self.eval_place(st, dest)?;
                self.write_place(st, &d, &b)
            }
            Rvalue::Repeat(op, n) => {
                let v = self.operand(st, op)?;
                let Some(n) = n.try_to_target_usize(self.tcx) else { return unsup("repeat count") };
                let mut b = Vec::with_capacity(v.bytes.len() * n as usize);
                for _ in 0..n {
                    b.extend(v.bytes.iter().cloned());
                }
                let d = self.eval_place(st, dest)?;
                self.write_place(st, &d, &b)
            }
            Rvalue::Cast(k, op, ty) => {
                let v = self.cast(st, k, op, *ty)?;
                let d = self.eval_place(st, dest)?;
                self.write_place(st, &d, &v.bytes)
            }
            Rvalue::BinaryOp(op, lr) => {
                let l = self.operand(st, &lr.0)?;
                let r = self.operand(st, &lr.1)?;
                let d = self.eval_place(st, dest)?;
                let b = self.binop(st, *op, &l, &r, &d.layout)?;
                self.write_place(st, &d, &b)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, o)?;
                let b = match op {
                    UnOp::Not => {
                        let x = self.bytes_bv(st, &v.bytes)?;
                        if v.layout.ty.is_bool() {
                            self.int_bytes(&Bv::bool8(not(x.get(0))))
                        } else {
                            self.int_bytes(&x.not())
                        }
                    }
                    UnOp::Neg if v.layout.ty.is_floating_point() => self.float_neg(st, &v)?,
                    UnOp::Neg => {
                        let x = self.bytes_bv(st, &v.bytes)?;
                        self.int_bytes(&Bv::c(x.w, 0).sub(&x))
                    }
                    UnOp::PtrMetadata => v.bytes[self.psz..].to_vec(),
                };
                let d = self.eval_place(st, dest)?;
                self.write_place(st, &d, &b)
            }
            Rvalue::Discriminant(p) => {
                let mp = self.eval_place(st, p)?;
                let v = self.read_discr(st, &mp)?;
                let d = self.eval_place(st, dest)?;
                self.write_place(st, &d, &v.bytes)
            }
            Rvalue::Aggregate(kind, ops) => {
                let d = self.eval_place(st, dest)?;
                if let AggregateKind::RawPtr(..) = **kind {
                    let mut b = vec![];
                    for o in ops.iter() {
                        b.extend(self.operand(st, o)?.bytes);
                    }
                    b.truncate(d.layout.size.bytes() as usize);
                    return self.write_place(st, &d, &b);
                }
                let (variant, active) = match **kind {
                    AggregateKind::Adt(_, v, _, _, f) => (v, f),
                    _ => (VariantIdx::from_u32(0), None),
                };
                let vals: Vec<Opv<'tcx>> = {
                    let mut v = vec![];
                    for o in ops.iter() {
                        v.push(self.operand(st, o)?);
                    }
                    v
                };
                let n = d.layout.size.bytes() as usize;
                let mut buf = vec![AByte::U; n];
                let is_array = matches!(**kind, AggregateKind::Array(_));
                let cx = self.lcx();
                let vl = if let AggregateKind::Adt(did, ..) = **kind {
                    if self.tcx.adt_def(did).is_enum() {
                        d.layout.for_variant(&cx, variant)
                    } else {
                        d.layout
                    }
                } else {
                    d.layout
                };
                for (i, v) in vals.iter().enumerate() {
                    let off = if is_array {
                        i * v.bytes.len()
                    } else {
                        let fi = active.unwrap_or(FieldIdx::from_usize(i)).as_usize();
                        vl.fields.offset(fi).bytes() as usize
                    };
                    buf[off..off + v.bytes.len()].clone_from_slice(&v.bytes);
                }
                self.write_place(st, &d, &buf)?;
                if d.layout.ty.is_enum() {
                    self.write_discr(st, &d, variant)?;
                }
                Ok(())
            }
            Rvalue::ThreadLocalRef(did) => {
                // one thread: an ordinary static
                let id = self.tcx.reserve_and_set_static_alloc(*did);
                let i = self.import(id)?;
                self.mutable.insert(i);
                let b = self.ptr_bytes(&PtrV { id: AId::G(i), off: Bv::c(self.pw(), 0) });
                let d = self.eval_place(st, dest)?;
                self.write_place(st, &d, &b)
            }
            Rvalue::WrapUnsafeBinder(..) => unsup("unsafe binder"),
        }
    }
    fn exec_stmt(&mut self, st: &mut State<'tcx>, s: &mir::Statement<'tcx>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(b) => self.rvalue(st, &b.1, &b.0),
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.eval_place(st, place)?;
                self.write_discr(st, &p, *variant_index)
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                let d = st.frames.len() - 1;
                if st.frames[d].locals[l.as_usize()].is_some() {
                    Rc::make_mut(&mut st.frames[d]).locals[l.as_usize()] = None;
                }
                Ok(())
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(op) => {
                    let v = self.op_bv(st, op)?;
                    let b = v.get(0);
                    if and(st.pc, b) == F {
                        return ub("false assumption");
                    }
                    if !implied(st.pc, b) {
                        return Err(E::Split(b));
                    }
                    Ok(())
                }
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let s = self.operand(st, &c.src)?;
                    let d = self.operand(st, &c.dst)?;
                    let n = self.op_bv(st, &c.count)?;
                    self.do_copy(st, &s, &d, &n, true)
                }
            },
            _ => Ok(()),
        }
    }
    pub fn do_copy(&mut self, st: &mut State<'tcx>, s: &Opv<'tcx>, d: &Opv<'tcx>, n: &Bv, _no: bool) -> R<()> {
        let n = self.concrete(st, n)?;
        let pt = s.layout.ty.builtin_deref(true).unwrap();
        let l = self.layout(pt)?;
        let size = n as u64 * l.size.bytes();
        let sp = self.bytes_sc(st, &s.bytes, true)?;
        let dp = self.bytes_sc(st, &d.bytes, true)?;
        if _no {
            if let (Sc::Ptr(a), Sc::Ptr(b)) = (&sp, &dp) {
                if a.id == b.id && size > 0 {
                    if let (Some(x), Some(y)) = (a.off.known(), b.off.known()) {
                        let sz = size as u128;
                        if x < y + sz && y < x + sz {
                            return ub("copy_nonoverlapping on overlapping ranges");
                        }
                    }
                }
            }
        }
        let b = self.read_mem(st, &sp, size, l.align.abi.bytes())?;
        self.write_mem(st, &dp, &b, l.align.abi.bytes())
    }

    // ------------------------------------------------------------------ control

    fn loc(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or("?".into()),
            _ => "?".into(),
        };
        format!("{}:{}", f, l.line)
    }
    pub fn chain(&self, st: &State<'tcx>) -> (String, Vec<String>) {
        let mut v = vec![];
        let mut site = String::new();
        for f in st.frames.iter().rev() {
            let bb = &f.bi.body.basic_blocks[f.bb];
            let sp = if f.stmt < bb.statements.len() {
                bb.statements[f.stmt].source_info.span
            } else {
                bb.terminator().source_info.span
            };
            if f.bi.is_target && site.is_empty() {
                site = f.bi.name.clone();
            }
            if f.bi.is_target || f.bi.local_crate || v.is_empty() {
                v.push(format!("{} at {}", f.bi.name, self.loc(sp)));
            }
        }
        if site.is_empty() {
            site = st.frames.last().map(|f| f.bi.name.clone()).unwrap_or_default();
        }
        (site, v)
    }
    /// Snapshot of the object `p` points to and of the heap memory it refers to.
    pub fn keep(&mut self, st: &mut State<'tcx>, p: &Sc, tag: &str) {
        let mut todo = vec![];
        if let Sc::Ptr(p) = p {
            todo.push(p.id);
        }
        let mut out: Vec<(String, AId, Rc<Alloc>)> = vec![];
        while let Some(id) = todo.pop() {
            if matches!(id, AId::G(_)) || out.iter().any(|x| x.1 == id) {
                continue;
            }
            let Some(a) = self.get_alloc(st, id) else { continue };
            for b in &a.bytes {
                if let AByte::P(p, _) = b {
                    todo.push(p.id);
                }
            }
            out.push((tag.to_string(), id, a.clone()));
        }
        let k = Rc::make_mut(&mut st.keep);
        k.extend(out);
    }
    fn check_kept(&mut self, st: &State<'tcx>, pc: Bit) {
        let keep = st.keep.clone();
        for (tag, id, old) in keep.iter() {
            self.stats.checks += 1;
            *self.stats.check_tags.entry(tag.clone()).or_insert(0) += 1;
            let mut bad = F;
            match self.get_alloc(st, *id) {
                None => bad = pc,
                Some(new) => {
                    if Rc::ptr_eq(new, old) {
                        continue;
                    }
                    bad = bdd::or(bad, and(pc, not(new.live)));
                    for (x, y) in old.bytes.iter().zip(new.bytes.iter()) {
                        if x.same(y) || matches!(x, AByte::U) {
                            continue;
                        }
                        match (x.int_bits(), y.int_bits()) {
                            (Some(a), Some(b)) => {
                                for i in 0..8 {
                                    bad = bdd::or(bad, and(pc, bdd::xor(a[i], b[i])));
                                }
                            }
                            _ => bad = pc,
                        }
                    }
                }
            }
            if bad != F {
                self.add_fail(st, tag.clone(), bad, "the rejected call has already changed it".into());
            }
        }
    }
    fn record_exit(&mut self, st: &State<'tcx>, pc: Bit, kind: ExitKind, msg: String) {
        if pc == F {
            return;
        }
        if st.expect > 0 && kind == ExitKind::Panic {
            self.check_kept(st, pc);
            return;
        }
        let (site, chain) = self.chain(st);
        let e = Exit { kind, msg, site, chain, pc, notes: st.notes.clone() };
        if self.exits.len() < 200 {
            self.exits.push(e);
        }
    }
    fn fail(&mut self, st: &State<'tcx>, e: E) {
        match e {
            E::Panic(k, m) => {
                if self.trace {
                    eprintln!("EXIT {k:?} {m} {:?}", self.chain(st));
                }
                self.record_exit(st, st.pc, k, m)
            }
            E::Unsup(m) => {
                let (site, chain) = self.chain(st);
                let s = format!("{m} [in {site}] {:?}", chain.first());
                if self.unsup.len() < 50 {
                    self.unsup.push(s);
                }
            }
            E::Dead => {}
            E::Split(_) => unreachable!(),
        }
    }
    fn at_stop(&self, st: &State<'tcx>, s: Stop) -> bool {
        let d = st.frames.len();
        if d < s.depth {
            return true;
        }
        if d == s.depth {
            if let Some(b) = s.block {
                let f = &st.frames[d - 1];
                return f.bb == b && f.stmt == 0;
            }
        }
        false
    }
    fn merge(&mut self, g: Bit, a: &State<'tcx>, b: &State<'tcx>) -> Option<State<'tcx>> {
        if a.frames.len() != b.frames.len() {
            return None;
        }
        let mut frames = Vec::with_capacity(a.frames.len());
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if Rc::ptr_eq(x, y) {
                frames.push(x.clone());
                continue;
            }
            if x.uid != y.uid || x.bb != y.bb || x.stmt != y.stmt {
                return None;
            }
            let mut f = (**y).clone();
            for i in 0..f.locals.len() {
                match (&x.locals[i], &f.locals[i]) {
                    (Some(p), Some(q)) => {
                        if !Rc::ptr_eq(p, q) {
                            let m = Alloc::merge(g, p, q);
                            f.locals[i] = Some(m);
                        }
                    }
                    (Some(p), None) => f.locals[i] = Some(p.clone()),
                    _ => {}
                }
            }
            frames.push(Rc::new(f));
        }
        let heap = if self.written.is_empty() || Rc::ptr_eq(&a.heap, &b.heap) {
            merge_heap(g, &a.heap, &b.heap)
        } else {
            // a static not yet written on one side still has its initial value there
            let (mut x, mut y) = (a.heap.clone(), b.heap.clone());
            for i in &self.written {
                let k = i | 0x8000_0000;
                let GAlloc::Mem(m) = &self.globals[*i as usize] else { continue };
                match (x.contains_key(&k), y.contains_key(&k)) {
                    (true, false) => drop(Rc::make_mut(&mut y).insert(k, m.clone())),
                    (false, true) => drop(Rc::make_mut(&mut x).insert(k, m.clone())),
                    _ => {}
                }
            }
            merge_heap(g, &x, &y)
        };
        self.stats.joins += 1;
        let notes = if a.notes.len() >= b.notes.len() { a.notes.clone() } else { b.notes.clone() };
        Some(State { frames, heap, pc: bdd::or(a.pc, b.pc), expect: a.expect, noalloc: a.noalloc, notes, keep: a.keep.clone() })
    }
    /// Join states collected with their selector guards; states that cannot be joined stay separate.
    fn join_all(&mut self, v: Vec<(Bit, State<'tcx>)>) -> Vec<State<'tcx>> {
        let mut out: Vec<State<'tcx>> = vec![];
        for (g, s) in v {
            let mut done = false;
            for o in out.iter_mut() {
                if let Some(m) = self.merge(g, &s, o) {
                    *o = m;
                    done = true;
                    break;
                }
            }
            if !done {
                out.push(s);
            }
        }
        out
    }
    fn with_pc(st: &State<'tcx>, pc: Bit) -> State<'tcx> {
        let mut s = st.clone();
        s.pc = pc;
        s
    }

    /// Propagate `st` until every resulting state reaches `stop`.
    fn run(&mut self, st: State<'tcx>, stop: Stop) -> Vec<State<'tcx>> {
        self.depth_run += 1;
        let r = self.run_inner(st, stop);
        self.depth_run -= 1;
        r
    }
    fn run_inner(&mut self, st: State<'tcx>, stop: Stop) -> Vec<State<'tcx>> {
        let mut work = vec![st];
        let mut done = vec![];
        'outer: while let Some(mut st) = work.pop() {
            loop {
                if self.abort.is_some() {
                    return vec![];
                }
                if st.pc == F {
                    continue 'outer;
                }
                if self.at_stop(&st, stop) {
                    done.push(st);
                    continue 'outer;
                }
                self.stats.steps += 1;
                if self.stats.steps > self.step_limit {
                    self.abort = Some("step limit".into());
                    return vec![];
                }
                if self.depth_run > 6000 {
                    self.abort = Some("nesting limit".into());
                    return vec![];
                }
                if bdd::blown() {
                    self.abort = Some("value representation too large".into());
                    return vec![];
                }
                let d = st.frames.len();
                let f = &st.frames[d - 1];
                let bi = f.bi.clone();
                let bb = &bi.body.basic_blocks[f.bb];
                if f.stmt < bb.statements.len() {
                    let stmt = &bb.statements[f.stmt];
                    let snapshot_needed = !matches!(
                        stmt.kind,
                        StatementKind::StorageLive(_) | StatementKind::StorageDead(_) | StatementKind::Nop
                    );
                    let _ = snapshot_needed;
                    match self.exec_stmt(&mut st, stmt) {
                        Ok(()) => {
                            Rc::make_mut(&mut st.frames[d - 1]).stmt += 1;
                            continue;
                        }
                        Err(E::Split(c)) => {
                            self.stats.forks += 1;
                            let outs = self.split_stmt(st, stmt, c);
                            work.extend(outs);
                            continue 'outer;
                        }
                        Err(e) => {
                            self.fail(&st, e);
                            continue 'outer;
                        }
                    }
                }
                // terminator
                match self.exec_term(&mut st, &bi) {
                    Ok(Flow::Next) => continue,
                    Ok(Flow::Fork(sides)) => {
                        self.stats.forks += 1;
                        let cur = st.frames[d - 1].bb;
                        let s2 = Stop { depth: d, block: bi.ipdom[cur.as_usize()] };
                        let mut coll = vec![];
                        drop(st);
                        for (g, s) in sides {
                            for r in self.run(s, s2) {
                                coll.push((g, r));
                            }
                        }
                        let outs = self.join_all(coll);
                        work.extend(outs);
                        continue 'outer;
                    }
                    Err(E::Split(c)) => {
                        self.stats.forks += 1;
                        let cur = st.frames[d - 1].bb;
                        let s2 = Stop { depth: d, block: bi.ipdom[cur.as_usize()] };
                        let mut coll = vec![];
                        for g in [c, not(c)] {
                            let pc = and(st.pc, g);
                            if pc == F {
                                continue;
                            }
                            let s = Self::with_pc(&st, pc);
                            // execute the terminator once so that `cur` itself is not a stop
                            for r in self.run_term_then(s, &bi, s2) {
                                coll.push((g, r));
                            }
                        }
                        let outs = self.join_all(coll);
                        work.extend(outs);
                        continue 'outer;
                    }
                    Err(e) => {
                        self.fail(&st, e);
                        continue 'outer;
                    }
                }
            }
        }
        if done.len() > 1 {
            // joined by the caller
        }
        done
    }
    fn run_term_then(&mut self, st: State<'tcx>, bi: &Rc<BodyInfo<'tcx>>, stop: Stop) -> Vec<State<'tcx>> {
        let mut st = st;
        match self.exec_term(&mut st, bi) {
            Ok(Flow::Next) => self.run(st, stop),
            Ok(Flow::Fork(sides)) => {
                let mut coll = vec![];
                for (g, s) in sides {
                    for r in self.run(s, stop) {
                        coll.push((g, r));
                    }
                }
                self.join_all(coll)
            }
            Err(E::Split(c)) => {
                if self.abort.is_some() {
                    return vec![];
                }
                if self.depth_run > 4000 {
                    self.abort = Some("splitting does not terminate".into());
                    return vec![];
                }
                self.depth_run += 1;
                let mut coll = vec![];
                for g in [c, not(c)] {
                    let pc = and(st.pc, g);
                    if pc == F {
                        continue;
                    }
                    let s = Self::with_pc(&st, pc);
                    for r in self.run_term_then(s, bi, stop) {
                        coll.push((g, r));
                    }
                }
                self.depth_run -= 1;
                self.join_all(coll)
            }
            Err(e) => {
                self.fail(&st, e);
                vec![]
            }
        }
    }
    fn split_stmt(&mut self, st: State<'tcx>, stmt: &mir::Statement<'tcx>, c: Bit) -> Vec<State<'tcx>> {
        let mut coll = vec![];
        let d = st.frames.len();
        for g in [c, not(c)] {
            let pc = and(st.pc, g);
            if pc == F {
                continue;
            }
            let mut s = Self::with_pc(&st, pc);
            match self.exec_stmt(&mut s, stmt) {
                Ok(()) => {
                    Rc::make_mut(&mut s.frames[d - 1]).stmt += 1;
                    coll.push((g, s));
                }
                Err(E::Split(c2)) => {
                    if self.depth_run > 4000 {
                        self.abort = Some("splitting does not terminate".into());
                        return vec![];
                    }
                    self.depth_run += 1;
                    for r in self.split_stmt(s, stmt, c2) {
                        coll.push((g, r));
                    }
                    self.depth_run -= 1;
                }
                Err(e) => self.fail(&s, e),
            }
        }
        self.join_all(coll)
    }
    pub fn goto(&self, st: &mut State<'tcx>, b: BasicBlock) {
        let d = st.frames.len() - 1;
        let f = Rc::make_mut(&mut st.frames[d]);
        f.bb = b;
        f.stmt = 0;
    }

    fn exec_term(&mut self, st: &mut State<'tcx>, bi: &Rc<BodyInfo<'tcx>>) -> R<Flow<'tcx>> {
        let d = st.frames.len();
        let cur = st.frames[d - 1].bb;
        let term = bi.body.basic_blocks[cur].terminator();
        match &term.kind {
            TerminatorKind::Goto { target, .. } => {
                self.goto(st, *target);
                Ok(Flow::Next)
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                self.goto(st, *real_target);
                Ok(Flow::Next)
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let o = self.operand(st, discr)?;
                let v = self.bytes_bv(st, &o.bytes)?;
                if let Some(k) = v.known() {
                    self.goto(st, targets.target_for_value(k));
                    return Ok(Flow::Next);
                }
                let mut groups: Vec<(BasicBlock, Bit)> = vec![];
                let mut rest = T;
                let mut add = |b: BasicBlock, g: Bit| {
                    if g == F {
                        return;
                    }
                    for x in groups.iter_mut() {
                        if x.0 == b {
                            x.1 = bdd::or(x.1, g);
                            return;
                        }
                    }
                    groups.push((b, g));
                };
                for (val, b) in targets.iter() {
                    let g = v.eq(&Bv::c(v.w, val));
                    let h = and(rest, g);
                    rest = and(rest, not(g));
                    if and(st.pc, h) != F {
                        add(b, h);
                    }
                }
                if and(st.pc, rest) != F {
                    add(targets.otherwise(), rest);
                }
                if groups.len() == 1 {
                    self.goto(st, groups[0].0);
                    return Ok(Flow::Next);
                }
                let mut sides = vec![];
                for (b, g) in groups {
                    let mut s = Self::with_pc(st, and(st.pc, g));
                    self.goto(&mut s, b);
                    sides.push((g, s));
                }
                Ok(Flow::Fork(sides))
            }
            TerminatorKind::Return => {
                self.do_return(st)?;
                Ok(Flow::Next)
            }
            TerminatorKind::Unreachable => ub("unreachable code reached"),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => Err(E::Dead),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.op_bv(st, cond)?.get(0);
                let ok = if *expected { c } else { not(c) };
                if bi.is_target {
                    let key = format!("{}#{}", bi.name, cur.as_u32());
                    if !self.stats.assert_sites.contains(&key) {
                        self.stats.assert_sites.insert(key);
                    }
                }
                let bad = and(st.pc, not(ok));
                if bad != F {
                    let (kind, text) = match &**msg {
                        AssertKind::Overflow(op, ..) => (ExitKind::Overflow, format!("arithmetic overflow in {op:?}")),
                        AssertKind::OverflowNeg(_) => (ExitKind::Overflow, "overflow in negation".into()),
                        AssertKind::BoundsCheck { .. } => (ExitKind::Panic, "index out of bounds".into()),
                        AssertKind::DivisionByZero(_) => (ExitKind::Panic, "division by zero".into()),
                        AssertKind::RemainderByZero(_) => (ExitKind::Panic, "remainder by zero".into()),
                        AssertKind::MisalignedPointerDereference { .. } => (ExitKind::Ub, "misaligned pointer".into()),
                        AssertKind::NullPointerDereference | AssertKind::NullReferenceConstructed => {
                            (ExitKind::Ub, "null pointer".into())
                        }
                        AssertKind::InvalidEnumConstruction(_) => (ExitKind::Ub, "invalid enum value".into()),
                        _ => (ExitKind::Panic, "assertion".into()),
                    };
                    if kind == ExitKind::Overflow && st.expect > 0 {
                        // without overflow checks the value wraps and analysis goes on
                        self.goto(st, *target);
                        return Ok(Flow::Next);
                    }
                    if self.trace {
                        eprintln!("EXIT {kind:?} {text} {:?}", self.chain(st));
                    }
                    self.record_exit(st, bad, kind, text);
                    st.pc = and(st.pc, ok);
                    if st.pc == F {
                        return Err(E::Dead);
                    }
                }
                self.goto(st, *target);
                Ok(Flow::Next)
            }
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.eval_place(st, place)?;
                let mut ty = p.layout.ty;
                let mut pbytes = self.place_ptr_bytes(&p);
                if let ty::Dynamic(..) = ty.kind() {
                    let Some(Sc::Ptr(v)) = &p.meta else { return ub("bad vtable") };
                    let AId::G(i) = v.id else { return ub("bad vtable") };
                    let GAlloc::VTable(t, _) = &self.globals[i as usize] else { return ub("bad vtable") };
                    ty = *t;
                    pbytes.truncate(self.psz);
                }
                let inst = Instance::resolve_drop_glue(self.tcx, ty);
                if let InstanceKind::Shim(ShimKind::DropGlue(_, None)) = inst.def {
                    self.goto(st, *target);
                    return Ok(Flow::Next);
                }
                let arg = Opv { layout: self.layout(Ty::new_mut_ptr(self.tcx, ty))?, bytes: pbytes };
                let unit = self.layout(self.tcx.types.unit)?;
                let dest = MPlace { addr: Sc::Int(Bv::c(self.pw(), 1)), meta: None, layout: unit };
                self.push_frame(st, inst, vec![arg], Some(dest), Some(*target))?;
                Ok(Flow::Next)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                self.call_term(st, func, args, destination, *target)?;
                Ok(Flow::Next)
            }
            k => unsup(format!("terminator {k:?}")),
        }
    }
    fn do_return(&mut self, st: &mut State<'tcx>) -> R<()> {
        let d = st.frames.len();
        let f = st.frames[d - 1].clone();
        let rl = f.bi.layouts[RETURN_PLACE.as_usize()].unwrap();
        let n = rl.size.bytes() as usize;
        let bytes = match &f.locals[0] {
            Some(a) => a.bytes.clone(),
            None => vec![AByte::U; n],
        };
        if f.bi.is_target && n > 0 {
            self.validity(st, &Opv { layout: rl, bytes: bytes.clone() })?;
        }
        // writing the result may itself need a split, so look at the destination before popping
        if let Some(dst) = &f.dest {
            if n > 0 {
                let mut s2 = st.clone();
                s2.frames.pop();
                self.write_mem(&mut s2, &dst.addr, &bytes, 1)?;
                *st = s2;
            } else {
                st.frames.pop();
            }
        } else {
            // entry frame: keep it out
            st.frames.pop();
        }
        match f.ret_to {
            Some(b) => {
                if !st.frames.is_empty() {
                    self.goto(st, b);
                }
                Ok(())
            }
            None => {
                if st.frames.is_empty() {
                    Ok(())
                } else {
                    ub("return from a diverging call")
                }
            }
        }
    }
    pub fn push_frame(
        &mut self,
        st: &mut State<'tcx>,
        inst: Instance<'tcx>,
        args: Vec<Opv<'tcx>>,
        dest: Option<MPlace<'tcx>>,
        ret_to: Option<BasicBlock>,
    ) -> R<()> {
        if st.frames.len() > 200 {
            return unsup("call depth");
        }
        let bi = self.body(inst)?;
        if bi.is_target && !self.stats.funcs.contains(&bi.def_name) {
            self.stats.funcs.insert(bi.def_name.clone());
        }
        let uid = self.next_uid;
        self.next_uid += 1;
        let nl = bi.body.local_decls.len();
        let mut locals: Vec<Option<Rc<Alloc>>> = vec![None; nl];
        let mut args = args;
        let nargs = bi.body.arg_count;
        let mk = |l: TyAndLayout<'tcx>, b: Bytes| Rc::new(Alloc { bytes: b, align: l.align.abi.bytes(), live: T });
        if self.trace {
            eprintln!("{}CALL {}", " ".repeat(st.frames.len()), bi.name);
        }
        if let Some(sp) = bi.body.spread_arg {
            let spi = sp.as_usize();
            if spi == 2 && bi.body.local_decls[mir::Local::from_u32(1)].ty.is_closure() && args.len() == bi.layouts[spi].unwrap().fields.count() {
                // non-capturing closure called through a function pointer: self is omitted
                let l = bi.layouts[1].unwrap();
                if l.size.bytes() == 0 {
                    args.insert(0, Opv { layout: l, bytes: vec![] });
                }
            }
            if args.len() + 1 < spi {
                return unsup(format!("spread argument mismatch in {}", bi.name));
            }
            let rest = args.split_off(spi - 1);
            let l = bi.layouts[spi].unwrap();
            let mut buf = vec![AByte::U; l.size.bytes() as usize];
            if l.fields.count() != rest.len() {
                return unsup(format!("spread argument mismatch in {}", bi.name));
            }
            for (i, a) in rest.iter().enumerate() {
                let o = l.fields.offset(i).bytes() as usize;
                buf[o..o + a.bytes.len()].clone_from_slice(&a.bytes);
            }
            locals[spi] = Some(mk(l, buf));
        }
        let avail = if bi.body.spread_arg.is_some() { nargs - 1 } else { nargs };
        if args.len() + 1 == avail && self.tcx.is_closure_like(inst.def_id()) {
            // non-capturing closure called through a function pointer: self is omitted
            let l = bi.layouts[1].unwrap();
            args.insert(0, Opv { layout: l, bytes: vec![AByte::U; l.size.bytes() as usize] });
        }
        if args.len() != avail {
            return unsup(format!("argument count mismatch calling {} ({} vs {})", bi.name, args.len(), avail));
        }
        for (i, a) in args.into_iter().enumerate() {
            let Some(l) = bi.layouts[i + 1] else { return unsup("unsized argument") };
            if l.size.bytes() as usize != a.bytes.len() {
                return unsup(format!("argument size mismatch calling {}", bi.name));
            }
            locals[i + 1] = Some(mk(l, a.bytes));
        }
        st.frames.push(Rc::new(Frame {
            uid,
            bi,
            bb: BasicBlock::from_u32(0),
            stmt: 0,
            locals,
            dest,
            ret_to,
        }));
        Ok(())
    }
    pub fn resolve(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> R<Instance<'tcx>> {
        if let Some(i) = self.resolve_cache.get(&(did, args)) {
            return Ok(*i);
        }
        match Instance::try_resolve(self.tcx, self.env, did, args) {
            Ok(Some(i)) => {
                self.resolve_cache.insert((did, args), i);
                Ok(i)
            }
            _ => unsup(format!("cannot resolve {}", self.tcx.def_path_str(did))),
        }
    }
    fn call_term(
        &mut self,
        st: &mut State<'tcx>,
        func: &Operand<'tcx>,
        args: &[rustc_span::Spanned<Operand<'tcx>>],
        destination: &Place<'tcx>,
        target: Option<BasicBlock>,
    ) -> R<()> {
        let fo = self.operand(st, func)?;
        let mut av = Vec::with_capacity(args.len());
        for a in args {
            av.push(self.operand(st, &a.node)?);
        }
        let dest = self.eval_place(st, destination)?;
        let (inst, sig_abi_rust_call) = match *fo.layout.ty.kind() {
            ty::FnDef(did, ga) => {
                let Some(ga) = ga.no_bound_vars() else { return unsup("bound args in call") };
                let sig = self.tcx.fn_sig(did).skip_binder().skip_binder();
                (self.resolve(did, ga)?, sig.abi() == rustc_abi::ExternAbi::RustCall)
            }
            ty::FnPtr(..) => {
                let p = self.bytes_sc(st, &fo.bytes, true)?;
                let Sc::Ptr(p) = p else { return ub("call of a non-function pointer") };
                let AId::G(i) = p.id else { return ub("call of a data pointer") };
                let GAlloc::Fn(inst) = &self.globals[i as usize] else { return ub("call of a data pointer") };
                (*inst, false)
            }
            _ => return unsup("callee"),
        };
        if sig_abi_rust_call {
            av = self.untuple(av)?;
        }
        self.call_inst(st, inst, av, dest, target)
    }
    pub fn untuple(&mut self, mut av: Vec<Opv<'tcx>>) -> R<Vec<Opv<'tcx>>> {
        let Some(last) = av.pop() else { return Ok(av) };
        let cx = self.lcx();
        for i in 0..last.layout.fields.count() {
            let fl = last.layout.field(&cx, i);
            let o = last.layout.fields.offset(i).bytes() as usize;
            av.push(Opv { layout: fl, bytes: last.bytes[o..o + fl.size.bytes() as usize].to_vec() });
        }
        Ok(av)
    }
    pub fn call_inst(
        &mut self,
        st: &mut State<'tcx>,
        inst: Instance<'tcx>,
        mut av: Vec<Opv<'tcx>>,
        dest: MPlace<'tcx>,
        target: Option<BasicBlock>,
    ) -> R<()> {
        match inst.def {
            InstanceKind::Intrinsic(did) => self.intrinsic(st, did, inst, av, dest, target),
            InstanceKind::LlvmIntrinsic(_) => unsup("llvm intrinsic"),
            InstanceKind::Virtual(_, idx) => {
                // first argument: wide pointer (possibly wrapped)
                let recv = av[0].clone();
                let data = recv.bytes[..self.psz].to_vec();
                let vt = self.bytes_sc(st, &recv.bytes[self.psz..2 * self.psz], true)?;
                let Sc::Ptr(v) = vt else { return ub("bad vtable") };
                let AId::G(i) = v.id else { return ub("bad vtable") };
                let GAlloc::VTable(ty, preds) = &self.globals[i as usize] else { return ub("bad vtable") };
                let (ty, preds) = (*ty, *preds);
                let entries = match preds.principal() {
                    Some(p) => {
                        let tr = self.tcx.instantiate_bound_regions_with_erased(p).with_self_ty(self.tcx, ty);
                        self.tcx.vtable_entries(tr)
                    }
                    None => return unsup("virtual call without principal"),
                };
                let ty::vtable::VtblEntry::Method(m) = entries[idx] else { return unsup("vtable entry") };
                let thin = self.layout(Ty::new_mut_ptr(self.tcx, ty))?;
                av[0] = Opv { layout: thin, bytes: data };
                self.call_inst(st, m, av, dest, target)
            }
            _ => {
                let did = inst.def_id();
                let kind = self.callee_kind(did);
                match kind {
                    CalleeKind::Normal => {}
                    _ => {
                        if self.special_call(st, kind, inst, &av, &dest, target)? {
                            return Ok(());
                        }
                    }
                }
                if let InstanceKind::Item(_) = inst.def {
                    if self.tcx.is_constructor(did) {
                        let d = dest.layout;
                        let variant = match d.ty.kind() {
                            ty::Adt(a, _) => a.variant_index_with_ctor_id(did),
                            _ => return unsup("constructor of a non-struct"),
                        };
                        let vl = if d.ty.is_enum() { d.for_variant(&self.lcx(), variant) } else { d };
                        let mut buf = vec![AByte::U; d.size.bytes() as usize];
                        for (i, v) in av.iter().enumerate() {
                            let off = vl.fields.offset(i).bytes() as usize;
                            buf[off..off + v.bytes.len()].clone_from_slice(&v.bytes);
                        }
                        self.write_place(st, &dest, &buf)?;
                        if d.ty.is_enum() {
                            self.write_discr(st, &dest, variant)?;
                        }
                        return self.ret_bytes(st, &dest, &[], target);
                    }
                    if !self.tcx.is_mir_available(did) || self.tcx.is_foreign_item(did) {
                        return self.extern_call(st, inst, av, dest, target);
                    }
                }
                self.push_frame(st, inst, av, Some(dest), target)
            }
        }
    }
    pub fn ret_bytes(&mut self, st: &mut State<'tcx>, dest: &MPlace<'tcx>, b: &[AByte], target: Option<BasicBlock>) -> R<()> {
        if !b.is_empty() {
            self.write_mem(st, &dest.addr, b, 1)?;
        }
        match target {
            Some(t) => {
                self.goto(st, t);
                Ok(())
            }
            None => ub("return from diverging call"),
        }
    }

    /// Analyse `inst` from an entry state with the given integer arguments.
    pub fn entry(&mut self, inst: Instance<'tcx>, args: Vec<Bv>) -> R<Vec<(Bit, Bytes)>> {
        let bi = self.body(inst)?;
        let mut st = State { frames: vec![], heap: Default::default(), pc: T, expect: 0, noalloc: 0, notes: vec![], keep: Default::default() };
        // an outer pseudo-frame holds the result
        let mut av = vec![];
        for (i, a) in args.iter().enumerate() {
            let l = bi.layouts[i + 1].unwrap();
            av.push(Opv { layout: l, bytes: self.int_bytes(a) });
        }
        let rl = bi.layouts[0].unwrap();
        let res = self.heap_alloc(&mut st, vec![AByte::U; rl.size.bytes() as usize], 16);
        let dest = MPlace { addr: Sc::Ptr(res.clone()), meta: None, layout: rl };
        self.push_frame(&mut st, inst, av, Some(dest), None)?;
        let outs = self.run(st, Stop { depth: 1, block: None });
        let mut r = vec![];
        for s in outs {
            if self.leak {
                self.leaks(&s);
            }
            let b = self.read_mem(&s, &Sc::Ptr(res.clone()), rl.size.bytes(), 1)?;
            r.push((s.pc, b));
        }
        Ok(r)
    }
}

pub enum Flow<'tcx> {
    Next,
    Fork(Vec<(Bit, State<'tcx>)>),
}

pub fn cmp_bv(lt: Bit, eq: Bit) -> Bv {
    // -1 / 0 / 1 as i8
    let ne = not(eq);
    let mut v = vec![ne];
    for _ in 1..8 {
        v.push(lt);
    }
    Bv::from_bits(v)
}

/// Immediate post-dominators over the blocks that can reach a return (unwinding ignored).
fn postdoms(body: &Body<'_>) -> Vec<Option<BasicBlock>> {
    let n = body.basic_blocks.len();
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    let mut exit = vec![false; n];
    for (bb, data) in body.basic_blocks.iter_enumerated() {
        let t = data.terminator();
        let i = bb.as_usize();
        match &t.kind {
            TerminatorKind::Return => exit[i] = true,
            TerminatorKind::Goto { target, .. } => succ[i].push(target.as_usize()),
            TerminatorKind::SwitchInt { targets, .. } => {
                for b in targets.all_targets() {
                    succ[i].push(b.as_usize())
                }
            }
            TerminatorKind::Assert { target, .. } | TerminatorKind::Drop { target, .. } => succ[i].push(target.as_usize()),
            TerminatorKind::Call { target: Some(t), .. } => succ[i].push(t.as_usize()),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                succ[i].push(real_target.as_usize())
            }
            _ => {}
        }
    }
    // blocks reaching return
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 0..n {
        for &s in &succ[i] {
            pred[s].push(i)
        }
    }
    let mut ok = exit.clone();
    let mut st: Vec<usize> = (0..n).filter(|i| exit[*i]).collect();
    while let Some(b) = st.pop() {
        for &p in &pred[b] {
            if !ok[p] {
                ok[p] = true;
                st.push(p)
            }
        }
    }
    // virtual exit = n ; post-order on the reversed graph
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack: Vec<(usize, usize)> = vec![(n, 0)];
    let exits: Vec<usize> = (0..n).filter(|i| exit[*i]).collect();
    seen[n] = true;
    while let Some((b, k)) = stack.pop() {
        let ps: &Vec<usize> = if b == n { &exits } else { &pred[b] };
        if k < ps.len() {
            stack.push((b, k + 1));
            let p = ps[k];
            if !seen[p] && ok[p] {
                seen[p] = true;
                stack.push((p, 0));
            }
        } else {
            order.push(b);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, b) in order.iter().enumerate() {
        num[*b] = i
    }
    let mut idom: Vec<Option<usize>> = vec![None; n + 1];
    idom[n] = Some(n);
    let mut changed = true;
    while changed {
        changed = false;
        for &b in order.iter().rev() {
            if b == n {
                continue;
            }
            let mut new: Option<usize> = None;
            let mut ss: Vec<usize> = succ[b].iter().copied().filter(|s| ok[*s]).collect();
            if exit[b] {
                ss.push(n)
            }
            for s in ss {
                if idom[s].is_none() {
                    continue;
                }
                new = Some(match new {
                    None => s,
                    Some(mut a) => {
                        let mut b2 = s;
                        while a != b2 {
                            while num[a] < num[b2] {
                                a = idom[a].unwrap()
                            }
                            while num[b2] < num[a] {
                                b2 = idom[b2].unwrap()
                            }
                        }
                        a
                    }
                });
            }
            if new.is_some() && idom[b] != new {
                idom[b] = new;
                changed = true;
            }
        }
    }
    (0..n)
        .map(|b| match idom[b] {
            Some(d) if d != n => Some(BasicBlock::from_usize(d)),
            _ => None,
        })
        .collect()
}
