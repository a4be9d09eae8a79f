//! Abstract machine integers: vectors of abstract bits, with a fast path for known constants.
use crate::bdd::{self, and, ite, not, or, xor, Bit, F, T};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum K {
    C(u128),
    S(Rc<[Bit]>),
}
/// A `w`-bit abstract integer, least significant bit first.
#[derive(Clone, Debug)]
pub struct Bv {
    pub w: u32,
    pub k: K,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl Bv {
    pub fn c(w: u32, v: u128) -> Bv {
        Bv { w, k: K::C(v & mask(w)) }
    }
    pub fn bit(b: Bit) -> Bv {
        Bv::from_bits(vec![b])
    }
    pub fn bool8(b: Bit) -> Bv {
        Bv::bit(b).zext(8)
    }
    pub fn from_bits(v: Vec<Bit>) -> Bv {
        let w = v.len() as u32;
        if w <= 128 && v.iter().all(|b| *b < 2) {
            let mut x = 0u128;
            for (i, b) in v.iter().enumerate() {
                if *b == T {
                    x |= 1 << i
                }
            }
            return Bv { w, k: K::C(x) };
        }
        Bv { w, k: K::S(v.into()) }
    }
    pub fn known(&self) -> Option<u128> {
        match &self.k {
            K::C(v) => Some(*v),
            _ => None,
        }
    }
    #[inline]
    pub fn get(&self, i: u32) -> Bit {
        match &self.k {
            K::C(v) => {
                if i < 128 && (v >> i) & 1 == 1 {
                    T
                } else {
                    F
                }
            }
            K::S(s) => s[i as usize],
        }
    }
    pub fn bits(&self) -> Vec<Bit> {
        (0..self.w).map(|i| self.get(i)).collect()
    }
    pub fn same(&self, o: &Bv) -> bool {
        if self.w != o.w {
            return false;
        }
        match (&self.k, &o.k) {
            (K::C(a), K::C(b)) => a == b,
            (K::S(a), K::S(b)) => Rc::ptr_eq(a, b) || a == b,
            _ => false,
        }
    }
    fn map2(&self, o: &Bv, f: fn(Bit, Bit) -> Bit, g: fn(u128, u128) -> u128) -> Bv {
        debug_assert_eq!(self.w, o.w);
        if let (K::C(a), K::C(b)) = (&self.k, &o.k) {
            return Bv::c(self.w, g(*a, *b));
        }
        Bv::from_bits((0..self.w).map(|i| f(self.get(i), o.get(i))).collect())
    }
    pub fn and(&self, o: &Bv) -> Bv {
        self.map2(o, and, |a, b| a & b)
    }
    pub fn or(&self, o: &Bv) -> Bv {
        self.map2(o, or, |a, b| a | b)
    }
    pub fn xor(&self, o: &Bv) -> Bv {
        self.map2(o, xor, |a, b| a ^ b)
    }
    pub fn not(&self) -> Bv {
        match &self.k {
            K::C(a) => Bv::c(self.w, !a),
            K::S(s) => Bv::from_bits(s.iter().map(|b| not(*b)).collect()),
        }
    }
    /// Sum and carry out.
    pub fn addc(&self, o: &Bv, cin: Bit) -> (Bv, Bit) {
        if let (K::C(a), K::C(b)) = (&self.k, &o.k) {
            if cin < 2 {
                let ci = (cin == T) as u128;
                if self.w < 128 {
                    let s = a + b + ci;
                    return (Bv::c(self.w, s), bdd::of(s >> self.w & 1 == 1));
                }
                let (s, c1) = a.overflowing_add(*b);
                let (s, c2) = s.overflowing_add(ci);
                return (Bv::c(128, s), bdd::of(c1 || c2));
            }
        }
        let mut c = cin;
        let mut out = Vec::with_capacity(self.w as usize);
        for i in 0..self.w {
            let (a, b) = (self.get(i), o.get(i));
            let x = xor(a, b);
            out.push(xor(x, c));
            c = or(and(a, b), and(x, c));
        }
        (Bv::from_bits(out), c)
    }
    pub fn add(&self, o: &Bv) -> Bv {
        self.addc(o, F).0
    }
    pub fn sub(&self, o: &Bv) -> Bv {
        self.addc(&o.not(), T).0
    }
    /// unsigned borrow of self - o
    pub fn ult(&self, o: &Bv) -> Bit {
        if let (K::C(a), K::C(b)) = (&self.k, &o.k) {
            return bdd::of(a < b);
        }
        // least significant first: r = (a<b at i) or (a==b at i and r)
        let mut r = F;
        for i in 0..self.w {
            let (a, b) = (self.get(i), o.get(i));
            let x = xor(a, b);
            r = ite(x, b, r);
        }
        r
    }
    pub fn flip_sign(&self) -> Bv {
        self.xor(&Bv::c(self.w, 1u128 << (self.w - 1)))
    }
    pub fn lt(&self, o: &Bv, signed: bool) -> Bit {
        if signed {
            self.flip_sign().ult(&o.flip_sign())
        } else {
            self.ult(o)
        }
    }
    pub fn eq(&self, o: &Bv) -> Bit {
        if let (K::C(a), K::C(b)) = (&self.k, &o.k) {
            return bdd::of(a == b);
        }
        let mut r = T;
        for i in (0..self.w).rev() {
            r = and(r, not(xor(self.get(i), o.get(i))));
            if r == F {
                break;
            }
        }
        r
    }
    pub fn is_zero(&self) -> Bit {
        self.eq(&Bv::c(self.w, 0))
    }
    pub fn ite(c: Bit, a: &Bv, b: &Bv) -> Bv {
        if c == T {
            return a.clone();
        }
        if c == F || a.same(b) {
            return b.clone();
        }
        Bv::from_bits((0..a.w).map(|i| ite(c, a.get(i), b.get(i))).collect())
    }
    pub fn zext(&self, w: u32) -> Bv {
        if w <= self.w {
            return self.trunc(w);
        }
        match &self.k {
            K::C(v) => Bv::c(w, *v),
            K::S(s) => {
                let mut v = s.to_vec();
                v.resize(w as usize, F);
                Bv::from_bits(v)
            }
        }
    }
    pub fn sext(&self, w: u32) -> Bv {
        if w <= self.w {
            return self.trunc(w);
        }
        let top = self.get(self.w - 1);
        let mut v = self.bits();
        v.resize(w as usize, top);
        Bv::from_bits(v)
    }
    pub fn trunc(&self, w: u32) -> Bv {
        if w == self.w {
            return self.clone();
        }
        match &self.k {
            K::C(v) => Bv::c(w, *v),
            K::S(s) => Bv::from_bits(s[..w as usize].to_vec()),
        }
    }
    pub fn shl_c(&self, n: u32) -> Bv {
        if n == 0 {
            return self.clone();
        }
        if n >= self.w {
            return Bv::c(self.w, 0);
        }
        match &self.k {
            K::C(v) => Bv::c(self.w, v << n),
            K::S(s) => {
                let mut v = vec![F; n as usize];
                v.extend_from_slice(&s[..(self.w - n) as usize]);
                Bv::from_bits(v)
            }
        }
    }
    pub fn shr_c(&self, n: u32, signed: bool) -> Bv {
        if n == 0 {
            return self.clone();
        }
        let top = if signed { self.get(self.w - 1) } else { F };
        let n = n.min(self.w);
        if let (K::C(v), true) = (&self.k, top == F) {
            return Bv::c(self.w, if n >= 128 { 0 } else { v >> n });
        }
        let mut v: Vec<Bit> = (n..self.w).map(|i| self.get(i)).collect();
        v.resize(self.w as usize, top);
        Bv::from_bits(v)
    }
    /// Shift by an abstract amount that is already known to be < w (w a power of two) or is masked so.
    pub fn shift(&self, amt: &Bv, left: bool, signed: bool) -> Bv {
        if let Some(n) = amt.known() {
            return if left { self.shl_c(n as u32) } else { self.shr_c(n as u32, signed) };
        }
        let mut r = self.clone();
        let mut i = 0;
        while (1u32 << i) < self.w && i < amt.w {
            let n = 1u32 << i;
            let s = if left { r.shl_c(n) } else { r.shr_c(n, signed) };
            r = Bv::ite(amt.get(i), &s, &r);
            i += 1;
        }
        r
    }
    pub fn rotl(&self, amt: &Bv) -> Bv {
        let w = self.w;
        let mut r = self.clone();
        let rot = |x: &Bv, n: u32| -> Bv {
            let b = x.bits();
            Bv::from_bits((0..w).map(|i| b[((i + w - n % w) % w) as usize]).collect())
        };
        if let Some(n) = amt.known() {
            return rot(&r, (n % w as u128) as u32);
        }
        let mut i = 0;
        while (1u32 << i) < w && i < amt.w {
            r = Bv::ite(amt.get(i), &rot(&r, 1 << i), &r);
            i += 1;
        }
        r
    }
    /// Product truncated to w bits.
    pub fn mul(&self, o: &Bv) -> Bv {
        if let (K::C(a), K::C(b)) = (&self.k, &o.k) {
            return Bv::c(self.w, a.wrapping_mul(*b));
        }
        let (a, b) = if self.known().is_some() { (o, self) } else { (self, o) };
        let mut r = Bv::c(self.w, 0);
        for i in 0..self.w {
            let bi = b.get(i);
            if bi == F {
                continue;
            }
            let s = r.add(&a.shl_c(i));
            r = Bv::ite(bi, &s, &r);
        }
        r
    }
    /// Unsigned product and overflow flag.
    pub fn umul_ov(&self, o: &Bv) -> (Bv, Bit) {
        if let (K::C(a), K::C(b)) = (&self.k, &o.k) {
            let (p, ov) = a.overflowing_mul(*b);
            return (Bv::c(self.w, p), bdd::of(ov || p & !mask(self.w) != 0));
        }
        let (a, b) = if self.known().is_some() { (o, self) } else { (self, o) };
        let mut r = Bv::c(self.w, 0);
        let mut ov = F;
        for i in 0..self.w {
            let bi = b.get(i);
            if bi == F {
                continue;
            }
            // bits of a shifted out
            let mut lost = F;
            for j in (self.w - i)..self.w {
                lost = or(lost, a.get(j));
            }
            let (s, c) = r.addc(&a.shl_c(i), F);
            ov = or(ov, and(bi, or(lost, c)));
            r = Bv::ite(bi, &s, &r);
        }
        (r, ov)
    }
    /// Unsigned quotient and remainder (divisor assumed non-zero).
    pub fn udivrem(&self, o: &Bv) -> (Bv, Bv) {
        if let (K::C(a), K::C(b)) = (&self.k, &o.k) {
            if *b == 0 {
                return (Bv::c(self.w, 0), Bv::c(self.w, 0));
            }
            return (Bv::c(self.w, a / b), Bv::c(self.w, a % b));
        }
        if let Some(b) = o.known() {
            if b.is_power_of_two() {
                let n = b.trailing_zeros();
                return (self.shr_c(n, false), self.and(&Bv::c(self.w, b - 1)));
            }
        }
        let w = self.w;
        let d = o.zextw(w + 1);
        let mut rem = Bv::zero(w + 1);
        let mut q = vec![F; w as usize];
        for i in (0..w).rev() {
            let mut v = vec![self.get(i)];
            v.extend((0..w).map(|j| rem.get(j)));
            let r2 = Bv { w: w + 1, k: K::S(v.into()) };
            let lt = r2.ult(&d);
            let sub = r2.sub(&d);
            q[i as usize] = not(lt);
            rem = Bv::ite(lt, &r2, &sub);
            if bdd::blown() {
                break;
            }
        }
        let rb: Vec<Bit> = (0..w).map(|i| rem.get(i)).collect();
        (Bv::from_bits(q), Bv::from_bits(rb))
    }
    fn zero(w: u32) -> Bv {
        Bv { w, k: K::S(vec![F; w as usize].into()) }
    }
    /// zero extension that also works for widths above 128
    fn zextw(&self, w: u32) -> Bv {
        let mut v = self.bits();
        v.resize(w as usize, F);
        Bv { w, k: K::S(v.into()) }
    }
    pub fn popcount(&self) -> Bv {
        let mut r = Bv::c(32, 0);
        for i in 0..self.w {
            r = r.add(&Bv::bit(self.get(i)).zext(32));
        }
        r
    }
    pub fn ctlz(&self) -> Bv {
        let mut r = Bv::c(32, self.w as u128);
        for i in 0..self.w {
            r = Bv::ite(self.get(i), &Bv::c(32, (self.w - 1 - i) as u128), &r);
        }
        r
    }
    pub fn cttz(&self) -> Bv {
        let mut r = Bv::c(32, self.w as u128);
        for i in (0..self.w).rev() {
            r = Bv::ite(self.get(i), &Bv::c(32, i as u128), &r);
        }
        r
    }
    pub fn bswap(&self) -> Bv {
        let b = self.bits();
        let n = (self.w / 8) as usize;
        let mut v = Vec::new();
        for i in (0..n).rev() {
            v.extend_from_slice(&b[i * 8..i * 8 + 8]);
        }
        Bv::from_bits(v)
    }
    pub fn bitrev(&self) -> Bv {
        let mut b = self.bits();
        b.reverse();
        Bv::from_bits(b)
    }
    /// All values the integer can take under `pc`, with the guard of each. None if more than `limit`.
    pub fn values(&self, pc: Bit, limit: usize) -> Option<Vec<(u128, Bit)>> {
        if let Some(v) = self.known() {
            return Some(vec![(v, pc)]);
        }
        let mut cur: Vec<(u128, Bit)> = vec![(0, pc)];
        for i in (0..self.w).rev() {
            let b = self.get(i);
            let mut nxt = Vec::with_capacity(cur.len());
            for (v, g) in cur {
                let g1 = and(g, b);
                let g0 = and(g, not(b));
                if g0 != F {
                    nxt.push((v, g0));
                }
                if g1 != F {
                    nxt.push((v | (1 << i), g1));
                }
            }
            if nxt.len() > limit {
                return None;
            }
            cur = nxt;
        }
        Some(cur)
    }
}
