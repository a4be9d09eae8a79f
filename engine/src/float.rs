//! Floating-point arithmetic on known values. An abstract number that becomes a float is taken apart into values: all of
//! them when they are few, otherwise values next to powers of two, and the rest is reported as not analysed.
use crate::bdd::{and, F};
use crate::bv::Bv;
use crate::interp::*;
use crate::mem::*;
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, FloatTy, Ty};

#[derive(Clone, Copy)]
pub enum Fl {
    S(f32),
    D(f64),
}
impl Fl {
    fn d(self) -> f64 {
        match self {
            Fl::S(x) => x as f64,
            Fl::D(x) => x,
        }
    }
}

impl<'tcx> Interp<'tcx> {
    /// One value of `v` on this path.
    pub fn sample(&self, st: &State<'tcx>, v: &Bv) -> R<u128> {
        if v.known().is_some() || v.values(st.pc, 64).is_some() {
            return self.concrete(st, v);
        }
        let max = if v.w >= 128 { u128::MAX } else { (1u128 << v.w) - 1 };
        let mut c = vec![0, 1, 2, 3, 10, 1000, max, max - 1];
        for k in [24u32, 32, 53, 60, 63] {
            if k < v.w {
                c.extend([(1u128 << k) - 1, (1u128 << k) + 1]);
            }
        }
        for k in c {
            let is = v.eq(&Bv::c(v.w, k));
            if and(st.pc, is) != F {
                if implied(st.pc, is) {
                    return Ok(k);
                }
                return Err(E::Split(is));
            }
        }
        unsup("floating point of too many values")
    }
    fn fl(&self, st: &State<'tcx>, t: Ty<'tcx>, b: &[AByte]) -> R<Fl> {
        let v = self.bytes_bv(st, b)?;
        // paths that meet again bring their values together
        let v = if v.values(st.pc, 1024).is_some() { self.concrete(st, &v)? } else { self.sample(st, &v)? };
        match t.kind() {
            ty::Float(FloatTy::F32) => Ok(Fl::S(f32::from_bits(v as u32))),
            ty::Float(FloatTy::F64) => Ok(Fl::D(f64::from_bits(v as u64))),
            _ => unsup("floating point of an unusual width"),
        }
    }
    fn fl_bytes(&self, x: Fl) -> Bytes {
        match x {
            Fl::S(x) => self.int_bytes(&Bv::c(32, x.to_bits() as u128)),
            Fl::D(x) => self.int_bytes(&Bv::c(64, x.to_bits() as u128)),
        }
    }
    pub fn float_binop(&self, st: &State<'tcx>, op: BinOp, l: &Opv<'tcx>, r: &Opv<'tcx>) -> R<Bytes> {
        let t = l.layout.ty;
        let (a, b) = (self.fl(st, t, &l.bytes)?, self.fl(st, t, &r.bytes)?);
        let truth = |c: bool| Ok(vec![AByte::K(c as u8)]);
        match op {
            BinOp::Eq => return truth(a.d() == b.d()),
            BinOp::Ne => return truth(a.d() != b.d()),
            BinOp::Lt => return truth(a.d() < b.d()),
            BinOp::Le => return truth(a.d() <= b.d()),
            BinOp::Gt => return truth(a.d() > b.d()),
            BinOp::Ge => return truth(a.d() >= b.d()),
            _ => {}
        }
        macro_rules! calc {
            ($x:expr, $y:expr) => {
                match op {
                    BinOp::Add => $x + $y,
                    BinOp::Sub => $x - $y,
                    BinOp::Mul => $x * $y,
                    BinOp::Div => $x / $y,
                    BinOp::Rem => $x % $y,
                    _ => return unsup("floating-point operation"),
                }
            };
        }
        Ok(self.fl_bytes(match (a, b) {
            (Fl::S(x), Fl::S(y)) => Fl::S(calc!(x, y)),
            (x, y) => Fl::D(calc!(x.d(), y.d())),
        }))
    }
    pub fn float_neg(&self, st: &State<'tcx>, v: &Opv<'tcx>) -> R<Bytes> {
        Ok(self.fl_bytes(match self.fl(st, v.layout.ty, &v.bytes)? {
            Fl::S(x) => Fl::S(-x),
            Fl::D(x) => Fl::D(-x),
        }))
    }
    pub fn int_to_float(&self, st: &State<'tcx>, src: &Opv<'tcx>, to: Ty<'tcx>) -> R<Bytes> {
        let v = self.bytes_bv(st, &src.bytes)?;
        let w = v.w;
        let v = self.sample(st, &v)?;
        let (neg, v) = if src.layout.ty.is_signed() && w < 128 && v >> (w - 1) & 1 == 1 {
            (true, (1u128 << w) - v)
        } else if src.layout.ty.is_signed() && w == 128 && v >> 127 == 1 {
            (true, v.wrapping_neg())
        } else {
            (false, v)
        };
        Ok(self.fl_bytes(match to.kind() {
            ty::Float(FloatTy::F32) => Fl::S(if neg { -(v as f32) } else { v as f32 }),
            ty::Float(FloatTy::F64) => Fl::D(if neg { -(v as f64) } else { v as f64 }),
            _ => return unsup("floating point of an unusual width"),
        }))
    }
    pub fn float_to_int(&self, st: &State<'tcx>, src: &Opv<'tcx>, to: Ty<'tcx>, bits: u32) -> R<Bytes> {
        let x = self.fl(st, src.layout.ty, &src.bytes)?.d();
        let v = if to.is_signed() {
            let (lo, hi) = if bits >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) };
            (x as i128).clamp(lo, hi) as u128
        } else {
            let hi = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
            (x as u128).min(hi)
        };
        let v = if bits < 128 { v & ((1u128 << bits) - 1) } else { v };
        Ok(self.int_bytes(&Bv::c(bits, v)))
    }
    pub fn float_to_float(&self, st: &State<'tcx>, src: &Opv<'tcx>, to: Ty<'tcx>) -> R<Bytes> {
        let x = self.fl(st, src.layout.ty, &src.bytes)?;
        Ok(self.fl_bytes(match to.kind() {
            ty::Float(FloatTy::F32) => Fl::S(x.d() as f32),
            ty::Float(FloatTy::F64) => Fl::D(x.d()),
            _ => return unsup("floating point of an unusual width"),
        }))
    }
    /// An intrinsic on floats, by name; `None` if it is not one.
    pub fn float_intrinsic(&self, st: &State<'tcx>, name: &str, av: &[Opv<'tcx>]) -> R<Option<Bytes>> {
        let Some(t) = av.first().map(|a| a.layout.ty) else { return Ok(None) };
        if !t.is_floating_point() {
            return Ok(None);
        }
        let base = name.trim_end_matches("f32").trim_end_matches("f64").trim_end_matches('_');
        let a = self.fl(st, t, &av[0].bytes)?;
        macro_rules! one {
            ($f:ident) => {
                match a {
                    Fl::S(x) => Fl::S(x.$f()),
                    Fl::D(x) => Fl::D(x.$f()),
                }
            };
        }
        macro_rules! two {
            ($f:ident) => {{
                let b = self.fl(st, av[1].layout.ty, &av[1].bytes)?;
                match (a, b) {
                    (Fl::S(x), Fl::S(y)) => Fl::S(x.$f(y)),
                    (x, y) => Fl::D(x.d().$f(y.d())),
                }
            }};
        }
        Ok(Some(self.fl_bytes(match base {
            "sqrt" => one!(sqrt),
            "floor" => one!(floor),
            "ceil" => one!(ceil),
            "trunc" => one!(trunc),
            "round" => one!(round),
            "round_ties_even" | "rint" | "nearbyint" => one!(round_ties_even),
            "fabs" => one!(abs),
            "exp" => one!(exp),
            "exp2" => one!(exp2),
            "log" => one!(ln),
            "log2" => one!(log2),
            "log10" => one!(log10),
            "pow" => two!(powf),
            "minnum" | "minimum_number_nsz" | "minimum" => two!(min),
            "maxnum" | "maximum_number_nsz" | "maximum" => two!(max),
            "copysign" => two!(copysign),
            "powi" => {
                let n = self.bytes_bv(st, &av[1].bytes)?;
                let n = self.sample(st, &n)? as u32 as i32;
                match a {
                    Fl::S(x) => Fl::S(x.powi(n)),
                    Fl::D(x) => Fl::D(x.powi(n)),
                }
            }
            "float_to_int_unchecked" => return unsup("unchecked cast of a float"),
            _ => return Ok(None),
        })))
    }
}
