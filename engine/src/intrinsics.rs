//! Compiler intrinsics, the allocator, the panic funnel and the specification primitives (`rt::*`).
use crate::bdd::{self, and, not, or, Bit, F, T};
use crate::bv::Bv;
use crate::interp::*;
use crate::mem::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{BasicBlock, BinOp};
use rustc_middle::ty::{self, Instance, Ty};
use rustc_span::sym;
use std::rc::Rc;

impl<'tcx> Interp<'tcx> {
    fn b8(&self, b: Bit) -> Bytes {
        self.int_bytes(&Bv::bool8(b))
    }
    fn need(&self, st: &State<'tcx>, c: Bit, msg: &str) -> R<()> {
        if c == T {
            return Ok(());
        }
        if and(st.pc, c) == F {
            return ub(msg.to_string());
        }
        if !implied(st.pc, c) {
            return Err(E::Split(c));
        }
        Ok(())
    }
    pub fn rawptr_place(&mut self, st: &State<'tcx>, o: &Opv<'tcx>) -> R<MPlace<'tcx>> {
        self.deref_bytes(st, &o.bytes, o.layout.ty)
    }
    fn pointee_size(&mut self, o: &Opv<'tcx>) -> R<(u64, u64)> {
        let Some(t) = o.layout.ty.builtin_deref(true) else { return unsup("pointee") };
        let l = self.layout(t)?;
        Ok((l.size.bytes(), l.align.abi.bytes()))
    }
    pub fn const_str(&mut self, st: &State<'tcx>, o: &Opv<'tcx>) -> R<String> {
        let p = self.bytes_sc(st, &o.bytes[..self.psz], true)?;
        let n = self.bytes_bv(st, &o.bytes[self.psz..])?;
        let Some(n) = n.known() else { return unsup("string of unknown length") };
        let b = self.read_mem(st, &p, n as u64, 1)?;
        let mut v = vec![];
        for x in b {
            match x {
                AByte::K(k) => v.push(k),
                _ => v.push(b'?'),
            }
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }

    pub fn intrinsic(
        &mut self,
        st: &mut State<'tcx>,
        did: DefId,
        inst: Instance<'tcx>,
        av: Vec<Opv<'tcx>>,
        dest: MPlace<'tcx>,
        target: Option<BasicBlock>,
    ) -> R<()> {
        let tcx = self.tcx;
        let idef = tcx.intrinsic(did).unwrap();
        let name = idef.name;
        let name = name.as_str();
        let pw = self.pw();
        macro_rules! ty0 {
            () => {
                inst.args.type_at(0)
            };
        }
        macro_rules! ret {
            ($b:expr) => {{
                let b = $b;
                return self.ret_bytes(st, &dest, &b, target);
            }};
        }
        macro_rules! bv {
            ($i:expr) => {
                self.bytes_bv(st, &av[$i].bytes)?
            };
        }
        match name {
            "size_of" => {
                let l = self.layout(ty0!())?;
                ret!(self.int_bytes(&Bv::c(pw, l.size.bytes() as u128)))
            }
            "align_of" | "min_align_of" | "pref_align_of" => {
                let l = self.layout(ty0!())?;
                ret!(self.int_bytes(&Bv::c(pw, l.align.abi.bytes() as u128)))
            }
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                let p = self.rawptr_place(st, &av[0])?;
                if !p.layout.is_sized() && name == "size_of_val" {
                    if let (ty::Slice(_) | ty::Str, Some(Sc::Int(n))) = (p.layout.ty.kind(), &p.meta) {
                        let el = match p.layout.ty.kind() {
                            ty::Slice(t) => self.layout(*t)?.size.bytes(),
                            _ => 1,
                        };
                        let v = n.mul(&Bv::c(pw, el as u128));
                        ret!(self.int_bytes(&v))
                    }
                }
                let (s, a) = self.size_align(st, &p)?;
                let v = if name == "size_of_val" { s } else { a };
                ret!(self.int_bytes(&Bv::c(pw, v as u128)))
            }
            "needs_drop" => ret!(vec![AByte::K(ty0!().needs_drop(tcx, self.env) as u8)]),
            "ub_checks" | "overflow_checks" => ret!(vec![AByte::K(1)]),
            "contract_checks" => ret!(vec![AByte::K(0)]),
            "type_id" => {
                let t = ty0!();
                let h = tcx.type_id_hash(t).as_u128();
                let n = dest.layout.size.bytes() as u32 * 8;
                ret!(self.int_bytes(&Bv::c(n, h)))
            }
            "type_id_eq" => {
                let (a, b) = (bv!(0), bv!(1));
                ret!(self.b8(a.eq(&b)))
            }
            "type_name" => {
                let s = format!("{}", ty0!());
                let g = Alloc { bytes: s.bytes().map(AByte::K).collect(), align: 1, live: T };
                let n = g.bytes.len();
                let id = self.new_global(GAlloc::Mem(Rc::new(g)));
                let mut b = self.ptr_bytes(&PtrV { id: AId::G(id), off: Bv::c(pw, 0) });
                b.extend(self.int_bytes(&Bv::c(pw, n as u128)));
                ret!(b)
            }
            "variant_count" => {
                let n = ty0!().ty_adt_def().map(|a| a.variants().len()).unwrap_or(0);
                ret!(self.int_bytes(&Bv::c(pw, n as u128)))
            }
            "discriminant_value" => {
                let p = self.rawptr_place(st, &av[0])?;
                let d = self.read_discr(st, &p)?;
                ret!(d.bytes)
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
                let a = bv!(0);
                if name.ends_with("nonzero") {
                    let z = not(a.is_zero());
                    self.need(st, z, "count of zeros of zero")?;
                }
                let r = match &name[..4] {
                    "ctpo" => a.popcount(),
                    "ctlz" => a.ctlz(),
                    _ => a.cttz(),
                };
                let w = dest.layout.size.bits() as u32;
                let r = if r.w < w { r.zext(w) } else { r.trunc(w) };
                ret!(self.int_bytes(&r))
            }
            "bswap" => ret!(self.int_bytes(&bv!(0).bswap())),
            "bitreverse" => ret!(self.int_bytes(&bv!(0).bitrev())),
            "rotate_left" => ret!(self.int_bytes(&bv!(0).rotl(&bv!(1)))),
            "rotate_right" => {
                let (a, n) = (bv!(0), bv!(1));
                let m = Bv::c(n.w, 0).sub(&n).and(&Bv::c(n.w, (a.w - 1) as u128));
                ret!(self.int_bytes(&a.rotl(&m)))
            }
            "unchecked_funnel_shl" | "unchecked_funnel_shr" => {
                let (a, b, n) = (bv!(0), bv!(1), bv!(2));
                let w = a.w;
                let ok = n.ult(&Bv::c(n.w, w as u128));
                self.need(st, ok, "funnel shift by too much")?;
                let m = n.and(&Bv::c(n.w, (w - 1) as u128));
                let inv = Bv::c(n.w, w as u128).sub(&m);
                let z = m.is_zero();
                let inv_m = inv.and(&Bv::c(n.w, (w - 1) as u128));
                let r = if name == "unchecked_funnel_shl" {
                    Bv::ite(z, &a, &a.shift(&m, true, false).or(&b.shift(&inv_m, false, false)))
                } else {
                    Bv::ite(z, &b, &b.shift(&m, false, false).or(&a.shift(&inv_m, true, false)))
                };
                ret!(self.int_bytes(&r))
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
                let (a, b) = (bv!(0), bv!(1));
                let r = match name {
                    "wrapping_add" => a.add(&b),
                    "wrapping_sub" => a.sub(&b),
                    _ => a.mul(&b),
                };
                ret!(self.int_bytes(&r))
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" | "unchecked_add" | "unchecked_sub"
            | "unchecked_mul" | "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" | "exact_div"
            | "three_way_compare" | "unchecked_disjoint_bitor" | "disjoint_bitor" => {
                let op = match name {
                    "add_with_overflow" => BinOp::AddWithOverflow,
                    "sub_with_overflow" => BinOp::SubWithOverflow,
                    "mul_with_overflow" => BinOp::MulWithOverflow,
                    "unchecked_add" => BinOp::AddUnchecked,
                    "unchecked_sub" => BinOp::SubUnchecked,
                    "unchecked_mul" => BinOp::MulUnchecked,
                    "unchecked_shl" => BinOp::ShlUnchecked,
                    "unchecked_shr" => BinOp::ShrUnchecked,
                    "unchecked_div" | "exact_div" => BinOp::Div,
                    "unchecked_rem" => BinOp::Rem,
                    "three_way_compare" => BinOp::Cmp,
                    _ => BinOp::BitOr,
                };
                if name == "exact_div" {
                    let r = self.binop(st, BinOp::Rem, &av[0], &av[1], &dest.layout)?;
                    let z = self.bytes_bv(st, &r)?.is_zero();
                    self.need(st, z, "exact_div with a remainder")?;
                }
                let b = self.binop(st, op, &av[0], &av[1], &dest.layout)?;
                ret!(b)
            }
            "saturating_add" | "saturating_sub" => {
                let signed = av[0].layout.ty.is_signed();
                let (a, b) = (bv!(0), bv!(1));
                let w = a.w;
                let op = if name == "saturating_add" { BinOp::Add } else { BinOp::Sub };
                let (v, ov) = self.arith_ov(op, &a, &b, signed)?;
                let sat = if signed {
                    let s = a.get(w - 1);
                    let max = Bv::c(w, (1u128 << (w - 1)) - 1);
                    Bv::ite(s, &max.not(), &max)
                } else if op == BinOp::Add {
                    Bv::c(w, u128::MAX)
                } else {
                    Bv::c(w, 0)
                };
                ret!(self.int_bytes(&Bv::ite(ov, &sat, &v)))
            }
            "copy" | "copy_nonoverlapping" => {
                let n = bv!(2);
                let (s, d) = (av[0].clone(), av[1].clone());
                self.do_copy(st, &s, &d, &n, name != "copy")?;
                ret!(vec![])
            }
            "write_bytes" | "volatile_set_memory" => {
                let n = bv!(2);
                let n = self.concrete(st, &n)?;
                let (s, a) = self.pointee_size(&av[0])?;
                let p = self.bytes_sc(st, &av[0].bytes, true)?;
                let b = vec![av[1].bytes[0].clone(); n as usize * s as usize];
                self.write_mem(st, &p, &b, a)?;
                ret!(vec![])
            }
            "compare_bytes" => {
                let n = bv!(2);
                let n = self.concrete(st, &n)? as usize;
                let p = self.bytes_sc(st, &av[0].bytes, true)?;
                let q = self.bytes_sc(st, &av[1].bytes, true)?;
                let (x, y) = (self.read_mem(st, &p, n as u64, 1)?, self.read_mem(st, &q, n as u64, 1)?);
                let (mut lt, mut eq) = (F, T);
                for i in 0..n {
                    let a = self.bytes_bv(st, &x[i..i + 1])?;
                    let b = self.bytes_bv(st, &y[i..i + 1])?;
                    lt = or(lt, and(eq, a.ult(&b)));
                    eq = and(eq, a.eq(&b));
                }
                let v = cmp_bv(lt, eq).sext(32);
                ret!(self.int_bytes(&v))
            }
            "raw_eq" => {
                let p = self.rawptr_place(st, &av[0])?;
                let q = self.rawptr_place(st, &av[1])?;
                let (x, y) = (self.read_place(st, &p)?, self.read_place(st, &q)?);
                let mut eq = T;
                for i in 0..x.len() {
                    let a = self.bytes_bv(st, &x[i..i + 1])?;
                    let b = self.bytes_bv(st, &y[i..i + 1])?;
                    eq = and(eq, a.eq(&b));
                }
                ret!(self.b8(eq))
            }
            "typed_swap_nonoverlapping" => {
                let p = self.rawptr_place(st, &av[0])?;
                let q = self.rawptr_place(st, &av[1])?;
                let (x, y) = (self.read_place(st, &p)?, self.read_place(st, &q)?);
                self.write_place(st, &p, &y)?;
                self.write_place(st, &q, &x)?;
                ret!(vec![])
            }
            "offset" | "arith_offset" => {
                let p = self.bytes_sc(st, &av[0].bytes, true)?;
                let (s, _) = self.pointee_size(&av[0])?;
                let n = bv!(1);
                let q = self.ptr_offset(st, &p, &n, true, s, name == "offset")?;
                ret!(self.sc_bytes(&q))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let (s, _) = self.pointee_size(&av[0])?;
                let p = self.bytes_sc(st, &av[0].bytes, true)?;
                let q = self.bytes_sc(st, &av[1].bytes, true)?;
                let d = match (&p, &q) {
                    (Sc::Ptr(a), Sc::Ptr(b)) if a.id == b.id => a.off.sub(&b.off),
                    (Sc::Int(a), Sc::Int(b)) => {
                        let z = a.eq(b);
                        self.need(st, z, "distance of pointers to different objects")?;
                        Bv::c(pw, 0)
                    }
                    _ => return ub("distance of pointers to different objects"),
                };
                if s == 0 {
                    return unsup("distance of pointers to zero-sized values");
                }
                let neg = d.get(pw - 1);
                if name == "ptr_offset_from_unsigned" {
                    self.need(st, not(neg), "negative pointer distance")?;
                }
                let abs = Bv::ite(neg, &Bv::c(pw, 0).sub(&d), &d);
                let (qv, m) = abs.udivrem(&Bv::c(pw, s as u128));
                self.need(st, m.is_zero(), "pointer distance is not a multiple of the size")?;
                let r = Bv::ite(neg, &Bv::c(pw, 0).sub(&qv), &qv);
                ret!(self.int_bytes(&r))
            }
            "ptr_guaranteed_cmp" => {
                let p = self.bytes_sc(st, &av[0].bytes, true)?;
                let q = self.bytes_sc(st, &av[1].bytes, true)?;
                let e = self.sc_addr(st, &p).eq(&self.sc_addr(st, &q));
                ret!(self.b8(e))
            }
            "ptr_mask" => {
                let p = self.bytes_sc(st, &av[0].bytes, true)?;
                let Sc::Ptr(pp) = &p else { return unsup("ptr_mask") };
                let a = self.addr(st, pp);
                let d = a.and(&bv!(1)).sub(&a);
                let q = self.offset_sc(&p, &d);
                ret!(self.sc_bytes(&q))
            }
            "transmute" | "transmute_unchecked" => {
                if av[0].bytes.len() != dest.layout.size.bytes() as usize {
                    return ub("transmute between different sizes");
                }
                let o = Opv { layout: dest.layout, bytes: av[0].bytes.clone() };
                self.validity(st, &o)?;
                ret!(o.bytes)
            }
            "black_box" => ret!(av[0].bytes.clone()),
            "assume" => {
                let c = bv!(0).get(0);
                self.need(st, c, "false assumption")?;
                ret!(vec![])
            }
            "likely" | "unlikely" => ret!(av[0].bytes.clone()),
            "cold_path" | "forget" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => {
                if name == "assert_inhabited" && self.layout(ty0!())?.is_uninhabited() {
                    return Err(E::Panic(ExitKind::Panic, "uninhabited type".into()));
                }
                if name == "assert_zero_valid" {
                    let req = (rustc_middle::ty::layout::ValidityRequirement::Zero, self.env.as_query_input(ty0!()));
                    if !matches!(tcx.check_validity_requirement(req), Ok(true)) {
                        return Err(E::Panic(ExitKind::Panic, "type is not zeroable".into()));
                    }
                }
                ret!(vec![])
            }
            "select_unpredictable" => {
                let c = bv!(0).get(0);
                let b = av[1].bytes.iter().zip(av[2].bytes.iter()).map(|(x, y)| AByte::ite(c, x, y)).collect::<Vec<_>>();
                ret!(b)
            }
            "is_val_statically_known" => ret!(vec![AByte::K(0)]),
            "const_eval_select" => {
                let f = av[2].layout.ty;
                let ty::FnDef(fd, ga) = *f.kind() else { return unsup("const_eval_select callee") };
                let Some(ga) = ga.no_bound_vars() else { return unsup("bound args") };
                let i2 = self.resolve(fd, ga)?;
                let args = self.untuple(vec![av[0].clone()])?;
                self.call_inst(st, i2, args, dest, target)
            }
            "caller_location" => {
                let sp = st.frames.last().map(|f| f.bi.body.span).unwrap_or(rustc_span::DUMMY_SP);
                let cv = tcx.span_as_caller_location(sp);
                let o = self.constval(cv, dest.layout.ty)?;
                ret!(o.bytes)
            }
            "atomic_fence" | "atomic_singlethreadfence" => ret!(vec![]),
            // one thread: atomic operations are ordinary reads and writes
            "atomic_load" => {
                let p = self.rawptr_place(st, &av[0])?;
                let b = self.read_place(st, &p)?;
                ret!(b)
            }
            "atomic_store" => {
                let p = self.rawptr_place(st, &av[0])?;
                self.write_place(st, &p, &av[1].bytes)?;
                ret!(vec![])
            }
            "atomic_cxchg" | "atomic_cxchgweak" => {
                let p = self.rawptr_place(st, &av[0])?;
                let old = self.read_place(st, &p)?;
                let (o, e) = (self.bytes_sc(st, &old, false)?, self.bytes_sc(st, &av[1].bytes, false)?);
                let same = self.sc_addr(st, &o).eq(&self.sc_addr(st, &e));
                let new: Bytes = old.iter().zip(av[2].bytes.iter()).map(|(x, y)| AByte::ite(same, y, x)).collect();
                self.write_place(st, &p, &new)?;
                let mut b = old;
                b.extend(self.b8(same));
                b.resize(dest.layout.size.bytes() as usize, AByte::U);
                ret!(b)
            }
            "atomic_xchg" | "atomic_xadd" | "atomic_xsub" | "atomic_and" | "atomic_nand" | "atomic_or" | "atomic_xor" | "atomic_max"
            | "atomic_min" | "atomic_umax" | "atomic_umin" => {
                let p = self.rawptr_place(st, &av[0])?;
                let old = self.read_place(st, &p)?;
                let new = if name == "atomic_xchg" {
                    av[1].bytes.clone()
                } else {
                    let (x, y) = (self.bytes_bv(st, &old)?, bv!(1));
                    let r = match name {
                        "atomic_xadd" => x.add(&y),
                        "atomic_xsub" => x.sub(&y),
                        "atomic_and" => x.and(&y),
                        "atomic_nand" => x.and(&y).not(),
                        "atomic_or" => x.or(&y),
                        "atomic_xor" => x.xor(&y),
                        "atomic_umax" => Bv::ite(x.ult(&y), &y, &x),
                        "atomic_umin" => Bv::ite(x.ult(&y), &x, &y),
                        "atomic_max" => Bv::ite(self.arith_lt(&x, &y), &y, &x),
                        _ => Bv::ite(self.arith_lt(&x, &y), &x, &y),
                    };
                    self.int_bytes(&r)
                };
                self.write_place(st, &p, &new)?;
                ret!(old)
            }
            "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => {
                let mut p = self.rawptr_place(st, &av[0])?;
                let b = if name == "unaligned_volatile_load" {
                    let n = p.layout.size.bytes();
                    self.read_mem(st, &p.addr, n, 1)?
                } else {
                    p.meta = None;
                    self.read_place(st, &p)?
                };
                ret!(b)
            }
            "volatile_store" | "unaligned_volatile_store" | "write_via_move" => {
                let p = self.rawptr_place(st, &av[0])?;
                let b = av[1].bytes.clone();
                if name == "unaligned_volatile_store" {
                    self.write_mem(st, &p.addr, &b, 1)?;
                } else {
                    self.write_place(st, &p, &b)?;
                }
                ret!(vec![])
            }
            "slice_get_unchecked" => {
                // (ptr, index) -> element pointer
                let base = self.bytes_sc(st, &av[0].bytes[..self.psz], true)?;
                let n = self.bytes_bv(st, &av[0].bytes[self.psz..])?;
                let i = bv!(1);
                self.need(st, i.ult(&n), "slice index out of bounds")?;
                let Some(t) = dest.layout.ty.builtin_deref(true) else { return unsup("slice_get_unchecked") };
                let s = self.layout(t)?.size.bytes();
                let q = self.ptr_offset(st, &base, &i, false, s, true)?;
                ret!(self.sc_bytes(&q))
            }
            "ptr_metadata" => ret!(av[0].bytes[self.psz..].to_vec()),
            "aggregate_raw_ptr" => {
                let mut b = av[0].bytes.clone();
                b.extend(av[1].bytes.iter().cloned());
                ret!(b)
            }
            "vtable_size" | "vtable_align" => {
                let p = self.bytes_sc(st, &av[0].bytes, true)?;
                let Sc::Ptr(p) = p else { return ub("bad vtable") };
                let AId::G(i) = p.id else { return ub("bad vtable") };
                let GAlloc::VTable(t, _) = &self.globals[i as usize] else { return ub("bad vtable") };
                let l = self.layout(*t)?;
                let v = if name == "vtable_size" { l.size.bytes() } else { l.align.abi.bytes() };
                ret!(self.int_bytes(&Bv::c(pw, v as u128)))
            }
            "abort" | "breakpoint" => Err(E::Panic(ExitKind::Panic, "abort".into())),
            "unreachable" => ub("unreachable code reached"),
            _ => {
                if let Some(b) = self.float_intrinsic(st, name, &av)? {
                    ret!(b);
                }
                if idef.must_be_overridden {
                    return unsup(format!("intrinsic {name}"));
                }
                let i2 = Instance::new_raw(did, inst.args);
                self.push_frame(st, i2, av, Some(dest), target)
            }
        }
    }

    fn arith_lt(&self, x: &Bv, y: &Bv) -> Bit {
        let m = Bv::c(x.w, 1u128 << (x.w - 1));
        x.xor(&m).ult(&y.xor(&m))
    }
    pub fn callee_kind(&mut self, did: DefId) -> CalleeKind {
        if let Some(k) = self.kind_cache.get(&did) {
            return *k;
        }
        let k = self.callee_kind_uncached(did);
        self.kind_cache.insert(did, k);
        k
    }
    fn callee_kind_uncached(&self, did: DefId) -> CalleeKind {
        let tcx = self.tcx;
        if did.is_local() {
            let path = tcx.def_path_str(did);
            if let Some(r) = path.strip_prefix("rt::") {
                if !r.contains("::") && !matches!(r, "emit_tok" | "emit_digits" | "tok_string") && r.starts_with("ma_") {
                    return CalleeKind::Rt;
                }
            }
            return CalleeKind::Normal;
        }
        let krate = tcx.crate_name(did.krate);
        let krate = krate.as_str();
        if krate == "core" || krate == "std" || krate == "alloc" {
            // the defining path, not the (re-exported) visible one
            let path = format!("{krate}{}", tcx.def_path(did).to_string_no_crate_verbose());
            if path.contains("panicking::") {
                let last = path.rsplit("::").next().unwrap_or("");
                if path.starts_with("core::panicking::") || path.starts_with("std::panicking::") {
                    if last.contains("nounwind") || last.contains("cannot_unwind") || last.contains("in_cleanup") {
                        return CalleeKind::PanicNounwind;
                    }
                    if krate == "core" || matches!(last, "begin_panic" | "begin_panic_handler" | "panic_with_hook" | "rust_panic_with_hook" | "resume_unwind" | "panic_handler") {
                        return CalleeKind::Panic;
                    }
                }
            }
            if path == "core::str::pattern::simd_contains" {
                return CalleeKind::NoSimd;
            }
            if path == "std::process::abort" || path == "core::process::abort" || path == "std::rt::begin_panic" {
                return CalleeKind::Panic;
            }
            if let Some(imp) = tcx.impl_of_assoc(did) {
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.skip_binder();
                    let st = tr.self_ty();
                    if matches!(st.kind(), ty::Int(_) | ty::Uint(_)) {
                        if tcx.is_diagnostic_item(sym::Display, tr.def_id) && tcx.item_name(did).as_str() == "fmt" {
                            return CalleeKind::DisplayInt;
                        }
                        if tcx.item_name(tr.def_id).as_str() == "SpecToString" {
                            return CalleeKind::SpecToString;
                        }
                    }
                }
            }
        }
        CalleeKind::Normal
    }
    /// The decimal digits of a non-negative abstract number: exact bytes (with a case split on their number) when
    /// it is small, a token standing for the digits otherwise.
    fn digits(&mut self, st: &mut State<'tcx>, v: Bv) -> R<(Bytes, bool)> {
        let mut w = 0;
        for i in 0..v.w {
            if and(st.pc, v.get(i)) != F {
                w = i + 1;
            }
        }
        let (text, exact) = if w <= 10 {
            let mut n = 1;
            for (k, t) in [10u128, 100, 1000].into_iter().enumerate() {
                let big = not(v.ult(&Bv::c(v.w, t)));
                let yes = and(st.pc, big);
                if yes != F && yes != st.pc {
                    return Err(E::Split(big));
                }
                if yes != F {
                    n = k + 2;
                }
            }
            let mut q = v.trunc(16);
            let ten = Bv::c(16, 10);
            let mut text = vec![];
            for _ in 0..n {
                let (d, r) = q.udivrem(&ten);
                q = d;
                let c = r.add(&Bv::c(16, 48)).trunc(8);
                text.extend(self.int_bytes(&c));
            }
            text.reverse();
            (text, true)
        } else if v.values(st.pc, 16).is_some() {
            let k = self.concrete(st, &v)?;
            (k.to_string().bytes().map(AByte::K).collect(), true)
        } else {
            (vec![AByte::Tok(Rc::new(Tok { kind: "dec", v }))], false)
        };
        let n = text.len();
        let p = self.heap_alloc(st, text, 1);
        let mut b = self.ptr_bytes(&p);
        b.extend(self.int_bytes(&Bv::c(self.pw(), n as u128)));
        Ok((b, exact))
    }
    /// Text of a byte string on one valuation of the inputs.
    fn render(&self, st: &State<'tcx>, v: &[AByte], m: &[bool]) -> R<Vec<u8>> {
        let num = |b: &Bv| (0..b.w).fold(0u128, |a, i| a | (bdd::eval(b.get(i), m) as u128) << i);
        let mut o = vec![];
        for x in v {
            match self.resolve_byte(st, x)? {
                AByte::Tok(t) => o.extend(num(&t.v).to_string().bytes()),
                x => o.push(num(&self.bytes_bv(st, std::slice::from_ref(&x))?) as u8),
            }
        }
        Ok(o)
    }
    /// Calls the engine models itself; returns false to fall through to the real body.
    pub fn special_call(
        &mut self,
        st: &mut State<'tcx>,
        kind: CalleeKind,
        inst: Instance<'tcx>,
        av: &[Opv<'tcx>],
        dest: &MPlace<'tcx>,
        target: Option<BasicBlock>,
    ) -> R<bool> {
        match kind {
            CalleeKind::Normal => Ok(false),
            CalleeKind::Panic | CalleeKind::PanicNounwind => {
                let name = self.tcx.item_name(inst.def_id());
                let name = name.as_str();
                let mut msg = name.to_string();
                if let Some(a) = av.first() {
                    if let ty::Ref(_, t, _) = a.layout.ty.kind() {
                        if t.is_str() {
                            msg = self.const_str(st, a)?;
                        }
                    }
                }
                let k = if kind == CalleeKind::PanicNounwind { ExitKind::Ub } else { ExitKind::Panic };
                // overflow panics raised by library code compiled with overflow checks
                let k = if name.starts_with("panic_const_") && name.contains("overflow") { ExitKind::Overflow } else { k };
                Err(E::Panic(k, msg))
            }
            CalleeKind::DisplayInt | CalleeKind::SpecToString => {
                // the argument may arrive as an ABI-compatible pointer type (format arguments): use the
                // implementing type
                let tcx = self.tcx;
                let self_ty = tcx
                    .impl_of_assoc(inst.def_id())
                    .and_then(|i| tcx.impl_opt_trait_ref(i))
                    .map(|t| t.skip_binder().self_ty());
                let Some(self_ty) = self_ty else { return unsup("formatting impl") };
                let rty = Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, self_ty);
                let p = self.deref_bytes(st, &av[0].bytes, rty)?;
                let v = self.read_bv(st, &p)?;
                if v.known().is_some() {
                    return Ok(false);
                }
                if p.layout.ty.is_signed() {
                    let s = v.get(v.w - 1);
                    if and(st.pc, s) != F {
                        return unsup("formatting a possibly negative abstract number");
                    }
                }
                let v = v.zext(128);
                let (s, exact) = self.digits(st, v)?;
                let fname = match (kind == CalleeKind::DisplayInt, exact) {
                    (true, true) => "emit_digits",
                    (true, false) => "emit_tok",
                    _ => "tok_string",
                };
                let Some(fd) = self.rt_fns.get(fname).copied() else { return unsup("rt function missing") };
                let i2 = Instance::mono(self.tcx, fd);
                let bi = self.body(i2)?;
                let n = bi.body.arg_count;
                let sl = bi.layouts[n].unwrap();
                let so = Opv { layout: sl, bytes: s };
                let args = if n == 2 { vec![av[1].clone(), so] } else { vec![so] };
                self.push_frame(st, i2, args, Some(dest.clone()), target)?;
                Ok(true)
            }
            CalleeKind::NoSimd => {
                // an answer of `None` makes the caller take the scalar path
                self.ret_bytes(st, dest, &[AByte::K(2)], target)?;
                Ok(true)
            }
            CalleeKind::Rt => {
                self.rt_call(st, inst, av, dest, target)?;
                Ok(true)
            }
        }
    }
    fn sym(&mut self, name: &str, w: u32) -> Bv {
        let mut v = vec![F; w as usize];
        for i in (0..w).rev() {
            v[i as usize] = bdd::fresh(format!("{name}[{i}]"));
        }
        Bv::from_bits(v)
    }
    pub fn add_fail(&mut self, st: &State<'tcx>, tag: String, cond: Bit, detail: String) {
        let mut st2 = st.clone();
        st2.pc = cond;
        let (site, chain) = self.chain(&st2);
        if self.fails.iter().filter(|f| f.tag == tag).count() < 4 {
            self.fails.push(CheckFail { tag, cond, site, chain, notes: st.notes.clone(), detail });
        }
    }
    fn rt_call(
        &mut self,
        st: &mut State<'tcx>,
        inst: Instance<'tcx>,
        av: &[Opv<'tcx>],
        dest: &MPlace<'tcx>,
        target: Option<BasicBlock>,
    ) -> R<()> {
        let name = self.tcx.item_name(inst.def_id());
        let name = name.as_str();
        match name {
            "ma_bit" => {
                let n = self.const_str(st, &av[0])?;
                let i = self.bytes_bv(st, &av[1].bytes)?;
                let j = self.bytes_bv(st, &av[2].bytes)?;
                let (Some(i), Some(j)) = (i.known(), j.known()) else { return unsup("symbolic bit index") };
                let b = bdd::fresh(format!("{n}[{i}].{j}"));
                let b = self.b8(b);
                self.ret_bytes(st, dest, &b, target)
            }
            "ma_sym" => {
                let n = self.const_str(st, &av[0])?;
                let w = dest.layout.size.bits() as u32;
                let v = if dest.layout.ty.is_bool() { Bv::bool8(bdd::fresh(n)) } else { self.sym(&n, w) };
                let b = self.int_bytes(&v);
                self.ret_bytes(st, dest, &b, target)
            }
            "ma_assume" => {
                let c = self.bytes_bv(st, &av[0].bytes)?.get(0);
                st.pc = and(st.pc, c);
                if st.pc == F {
                    return Err(E::Dead);
                }
                self.ret_bytes(st, dest, &[], target)
            }
            "ma_check" => {
                let c = self.bytes_bv(st, &av[0].bytes)?.get(0);
                let tag = self.const_str(st, &av[1])?;
                self.stats.checks += 1;
                *self.stats.check_tags.entry(tag.clone()).or_insert(0) += 1;
                let bad = and(st.pc, not(c));
                if bad != F {
                    if self.trace {
                        eprintln!("CHECK FAILS {tag}");
                    }
                    self.add_fail(st, tag, bad, String::new());
                }
                self.ret_bytes(st, dest, &[], target)
            }
            "ma_keep" => {
                let p = self.bytes_sc(st, &av[0].bytes[..self.psz], true)?;
                let tag = self.const_str(st, &av[1])?;
                self.keep(st, &p, &tag);
                self.ret_bytes(st, dest, &[], target)
            }
            "ma_expect_panic_begin" => {
                st.expect += 1;
                self.ret_bytes(st, dest, &[], target)
            }
            "ma_expect_panic_end" => {
                let tag = self.const_str(st, &av[0])?;
                self.stats.checks += 1;
                *self.stats.check_tags.entry(tag.clone()).or_insert(0) += 1;
                let pc = st.pc;
                self.add_fail(st, tag, pc, "the call returns instead of panicking".into());
                Err(E::Dead)
            }
            "ma_no_alloc" => {
                let on = self.bytes_bv(st, &av[0].bytes)?.get(0) == T;
                if on {
                    st.noalloc += 1;
                } else {
                    st.noalloc -= 1;
                    self.stats.checks += 1;
                    *self.stats.check_tags.entry("nothing is allocated".into()).or_insert(0) += 1;
                }
                self.ret_bytes(st, dest, &[], target)
            }
            "ma_stop" => Err(E::Dead),
            "ma_note" => {
                let n = self.const_str(st, &av[0])?;
                let v = self.bytes_bv(st, &av[1].bytes)?;
                if let Some(k) = v.known() {
                    match st.notes.iter_mut().find(|x| x.0 == n) {
                        Some(e) => e.1 = k,
                        None => st.notes.push((n, k)),
                    }
                }
                self.ret_bytes(st, dest, &[], target)
            }
            "ma_known" => {
                // true when the value is a single constant
                let v = self.bytes_bv(st, &av[0].bytes)?;
                let b = self.b8(if v.known().is_some() { T } else { F });
                self.ret_bytes(st, dest, &b, target)
            }
            "ma_split" => {
                // force a case split on the value
                let v = self.bytes_bv(st, &av[0].bytes)?;
                let k = self.concrete(st, &v)?;
                let b = self.int_bytes(&Bv::c(v.w, k));
                self.ret_bytes(st, dest, &b, target)
            }
            "ma_unsupported" => {
                let n = self.const_str(st, &av[0])?;
                unsup(n)
            }
            "ma_same_bytes" => {
                let rd = |this: &mut Self, o: &Opv<'tcx>| -> R<Bytes> {
                    let p = this.bytes_sc(st, &o.bytes[..this.psz], true)?;
                    let n = this.bytes_bv(st, &o.bytes[this.psz..])?;
                    let n = this.concrete(st, &n)?;
                    this.read_mem(st, &p, n as u64, 1)
                };
                let a = rd(self, &av[0])?;
                let b = rd(self, &av[1])?;
                let tag = self.const_str(st, &av[2])?;
                self.stats.checks += 1;
                *self.stats.check_tags.entry(tag.clone()).or_insert(0) += 1;
                let show = |v: &Bytes| -> String {
                    v.iter()
                        .map(|x| match x {
                            AByte::K(k) => (*k as char).to_string(),
                            AByte::Tok(_) => "<number>".into(),
                            _ => "?".into(),
                        })
                        .collect()
                };
                let mut eq = if a.len() == b.len() { T } else { F };
                let mut why = String::new();
                if eq == T {
                    for (x, y) in a.iter().zip(b.iter()) {
                        let x = self.resolve_byte(st, x)?;
                        let y = self.resolve_byte(st, y)?;
                        let e = match (&x, &y) {
                            (AByte::Tok(p), AByte::Tok(q)) => {
                                if p.kind == q.kind && p.v.w == q.v.w {
                                    p.v.eq(&q.v)
                                } else {
                                    F
                                }
                            }
                            (AByte::Tok(_), _) | (_, AByte::Tok(_)) => F,
                            _ => {
                                let p = self.bytes_bv(st, std::slice::from_ref(&x))?;
                                let q = self.bytes_bv(st, std::slice::from_ref(&y))?;
                                p.eq(&q)
                            }
                        };
                        eq = and(eq, e);
                    }
                }
                let mut bad = and(st.pc, not(eq));
                if bad != F && a.iter().chain(b.iter()).any(|x| matches!(x, AByte::Tok(_))) {
                    // strings with tokens can agree although their pieces differ: report only a difference that is seen
                    let mut found = None;
                    for seed in 0..200 {
                        let Some(m) = bdd::model(bad, seed) else { break };
                        if self.render(st, &a, &m)? != self.render(st, &b, &m)? {
                            found = Some(m);
                            break;
                        }
                    }
                    let Some(m) = found else { return unsup("comparison of texts built differently from abstract numbers") };
                    // the inputs of that difference
                    for x in a.iter().chain(b.iter()) {
                        let bits = match self.resolve_byte(st, x)? {
                            AByte::Tok(t) => t.v.bits(),
                            x => self.bytes_bv(st, std::slice::from_ref(&x))?.bits(),
                        };
                        for f in bits {
                            bad = and(bad, if bdd::eval(f, &m) { f } else { not(f) });
                        }
                    }
                }
                if bad != F {
                    why.push_str(&format!("got `{}`, expected `{}`", show(&a), show(&b)));
                    self.add_fail(st, tag, bad, why);
                }
                self.ret_bytes(st, dest, &[], target)
            }
            _ => unsup(format!("unknown rt function {name}")),
        }
    }

    pub fn extern_call(
        &mut self,
        st: &mut State<'tcx>,
        inst: Instance<'tcx>,
        av: Vec<Opv<'tcx>>,
        dest: MPlace<'tcx>,
        target: Option<BasicBlock>,
    ) -> R<()> {
        let name = self.tcx.item_name(inst.def_id());
        let name = name.as_str();
        let name = name.trim_start_matches('_');
        match name {
            "rust_alloc" | "rust_alloc_zeroed" => {
                let n = self.bytes_bv(st, &av[0].bytes)?;
                self.fits_memory(st, &n)?;
                let n = self.concrete(st, &n)?;
                let al = self.bytes_bv(st, &av[1].bytes)?;
                let al = self.concrete(st, &al)?;
                if n > 1 << 24 {
                    return unsup("huge allocation");
                }
                if n == 0 {
                    return ub("allocation of zero bytes");
                }
                let fill = if name == "rust_alloc" { AByte::U } else { AByte::K(0) };
                let p = self.heap_alloc(st, vec![fill; n as usize], al as u64);
                self.allocated(st, &p);
                let b = self.ptr_bytes(&p);
                self.ret_bytes(st, &dest, &b, target)
            }
            "rust_dealloc" => {
                let p = self.bytes_sc(st, &av[0].bytes, true)?;
                let n = self.bytes_bv(st, &av[1].bytes)?;
                self.check_layout(st, &p, &n)?;
                self.heap_free(st, &p)?;
                self.ret_bytes(st, &dest, &[], target)
            }
            "rust_realloc" => {
                let p = self.bytes_sc(st, &av[0].bytes, true)?;
                let old = self.bytes_bv(st, &av[1].bytes)?;
                self.check_layout(st, &p, &old)?;
                let al = self.bytes_bv(st, &av[2].bytes)?;
                let al = self.concrete(st, &al)?;
                let n = self.bytes_bv(st, &av[3].bytes)?;
                self.fits_memory(st, &n)?;
                let n = self.concrete(st, &n)?;
                if n > 1 << 24 {
                    return unsup("huge allocation");
                }
                let on = self.concrete(st, &old)?;
                let m = on.min(n) as u64;
                let mut b = self.read_mem(st, &p, m, 1)?;
                b.resize(n as usize, AByte::U);
                self.heap_free(st, &p)?;
                let q = self.heap_alloc(st, b, al as u64);
                self.allocated(st, &q);
                let b = self.ptr_bytes(&q);
                self.ret_bytes(st, &dest, &b, target)
            }
            _ if name.contains("no_alloc_shim_is_unstable") => {
                let n = dest.layout.size.bytes() as usize;
                self.ret_bytes(st, &dest, &vec![AByte::K(0); n], target)
            }
            // output: everything is written
            "write" => self.ret_bytes(st, &dest, &av[2].bytes.clone(), target),
            // the pointer has been found to be aligned from its address
            "miri_promise_symbolic_alignment" | "rust_miri_promise_symbolic_alignment" => {
                if let Sc::Ptr(p) = self.bytes_sc(st, &av[0].bytes, true)? {
                    let al = self.bytes_bv(st, &av[1].bytes)?;
                    let al = self.concrete(st, &al)? as u64;
                    let e = self.promised.entry(p.id).or_insert(1);
                    *e = (*e).max(al);
                }
                let n = dest.layout.size.bytes() as usize;
                self.ret_bytes(st, &dest, &vec![AByte::U; n], target)
            }
            _ => unsup(format!("external function {name}")),
        }
    }
    fn allocated(&mut self, st: &State<'tcx>, p: &PtrV) {
        if st.noalloc > 0 {
            self.add_fail(st, "memory is allocated".into(), st.pc, String::new());
        }
        if self.leak {
            self.stats.checks += 1;
            *self.stats.check_tags.entry("allocated memory is freed".into()).or_insert(0) += 1;
            if let AId::H(i) = p.id {
                let c = self.chain(st);
                self.heap_sites.insert(i, c);
            }
        }
    }
    /// A request for 2^40 bytes or more fails, which ends the program without a result.
    fn fits_memory(&mut self, st: &mut State<'tcx>, n: &Bv) -> R<()> {
        for i in 40..n.w {
            st.pc = and(st.pc, not(n.get(i)));
        }
        if st.pc == F {
            return Err(E::Dead);
        }
        let mut left = st.pc;
        for _ in 0..64 {
            let mut s = left;
            let mut is = T;
            for i in 0..n.w {
                let b = n.get(i);
                let g = and(s, b);
                let b = if g != F { b } else { not(b) };
                s = and(s, b);
                is = and(is, b);
            }
            left = and(left, not(is));
            if left == F {
                return Ok(());
            }
        }
        unsup("allocation of an unknown size")
    }
    fn check_layout(&mut self, st: &State<'tcx>, p: &Sc, n: &Bv) -> R<()> {
        if let Sc::Ptr(PtrV { id: AId::H(i), .. }) = p {
            if let Some(a) = st.heap.get(i) {
                let ok = n.eq(&Bv::c(n.w, a.bytes.len() as u128));
                self.need(st, ok, "deallocation with the wrong size")?;
            }
        }
        Ok(())
    }
    pub fn ptr_ty(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        Ty::new_mut_ptr(self.tcx, t)
    }
}
