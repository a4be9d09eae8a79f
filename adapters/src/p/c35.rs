//! Entries of property C35: fixed-depth and static indices do not allocate.
use super::*;
use std::hash::Hasher;
use std::mem::{needs_drop, size_of};

struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.0 = self.0.rotate_left(8) ^ b[i] as u64;
            i += 1;
        }
    }
}
struct Walk;
impl Driver for Walk {
    fn go<I: Iterator>(&self, it: fn(&I::Item) -> usize, mk: &dyn Fn() -> I, e: &[usize]) {
        let mut s = 0;
        for c in mk() {
            s += it(&c);
        }
        let mut i = mk();
        let _ = i.size_hint();
        if let Some(c) = i.nth(e.len() / 2) {
            s += it(&c);
        }
        let _ = mk().count();
        let _ = mk().last();
    }
}
fn size<X: Ix>() {
    if X::KIND == FIXED {
        ma_check(size_of::<X>() == X::W / 8, "a fixed-depth index takes the memory of its bits");
    } else {
        ma_check(size_of::<X>() <= X::W / 8 + 16, "a static index takes the memory of its bits and a depth");
    }
    ma_check(!needs_drop::<X>(), "the index owns nothing but itself");
}
fn common<X: Ix>(p: usize) {
    size::<X>();
    let d = dd::<X>(p);
    let ks = syms::<X>("cell", d);
    let cs = mks::<X>(&ks);
    let k = X::mk(sym_cell("new", 0, X::D));
    let mut long = cs.clone();
    while long.len() <= X::CAP {
        long.push(k);
    }
    ma_no_alloc(true);
    let x = match X::build(&cs) {
        Ok(x) => x,
        Err(_) => ma_stop(),
    };
    let _ = X::build(&long);
    let _ = X::default();
    let mut y = x.clone();
    let ls = [0, 1, d / 2, d.saturating_sub(1)];
    let mut i = 0;
    while i < 4 {
        let l = ls[i];
        if l < d {
            let _ = (y.get(l), y.get_u(l));
            y.set(l, k);
            y.set_u(l, k);
        }
        i += 1;
    }
    let _ = (x.dep(), X::cap_reported());
    let _ = (x == y, x != y, x.cmp(&y), x.partial_cmp(&y), x < y, x <= y);
    let mut h = Sum(0);
    x.hash(&mut h);
    let z = x.inv();
    y.clone_from(&z);
    x.drive_cells(&ks, Walk);
    let mut o = 0;
    while o < X::ORDERS {
        let g = x.grid(o);
        let _ = X::from_grid(g, d, o);
        o += 1;
    }
    let _ = X::from_grid([usize::MAX, 5, 7], X::CAP + 1, 0);
    drop((x, y, z));
    ma_no_alloc(false);
}
fn variable<X: Vx>(p: usize) {
    common::<X>(p);
    let d = dd::<X>(p);
    let ks = syms::<X>("cell", d);
    let x: X = from_nums(&ks);
    let cs = mks::<X>(&ks);
    let k = X::mk(sym_cell("new", 0, X::D));
    ma_no_alloc(true);
    let gs = [1, d / 2, d, d + 1];
    let mut i = 0;
    while i < 4 {
        if let Some(g) = NonZeroUsize::new(gs[i]) {
            let _ = x.anc(g);
        }
        let _ = x.wd(gs[i]);
        let n = X::CAP - d;
        let ns = [0, 1, n / 2, n];
        if ns[i] <= cs.len() {
            let _ = x.desc(&cs[..ns[i]]);
        }
        i += 1;
    }
    let _ = (x.par(), x.chi(k), x.desc(&cs));
    let _ = (X::zero(d), X::zero(X::CAP + 1));
    ma_no_alloc(false);
}
inst_list!(c35_fixed, common, own_depths, [
    f2x8: F2x8, f2x16: F2x16, f2x32: F2x32, f2x64: F2x64, f2x128: F2x128, f2w: F2w,
    f3x8: F3x8, f3x16: F3x16, f3x32: F3x32, f3x64: F3x64, f3w: F3w
]);
inst_list!(c35_static, variable, own_depths, [
    s2x8: S2x8, s2x16: S2x16, s2x32: S2x32, s2x64: S2x64, s2x128: S2x128, s2w: S2w,
    s3x8: S3x8, s3x16: S3x16, s3x32: S3x32, s3x64: S3x64, s3x128: S3x128, s3w: S3w
]);
fn arrays<X: Ix, const N: usize>() {
    let ks = syms::<X>("cell", N);
    let a: [X::C; N] = std::array::from_fn(|i| X::mk(ks[i]));
    ma_no_alloc(true);
    let x = X::build_arr(a);
    ma_check(x.is_ok() == (N <= X::CAP), "an array that fits is accepted");
    drop(x);
    ma_no_alloc(false);
}
pub mod c35_array {
    use super::*;
    pub fn f2() {
        arrays::<F2x16, 8>();
        arrays::<F2x16, 9>();
        arrays::<F2x128, 64>()
    }
    pub fn s2() {
        arrays::<S2x16, 5>();
        arrays::<S2x16, 9>();
        arrays::<S2x128, 64>()
    }
    pub fn f3() {
        arrays::<F3x16, 5>();
        arrays::<F3x16, 6>();
        arrays::<F3x64, 21>()
    }
    pub fn s3() {
        arrays::<S3x16, 3>();
        arrays::<S3x16, 6>();
        arrays::<S3x128, 42>()
    }
}
fn convert<A: Ix, B: Ix>(p: usize)
where
    B: From<A>,
{
    let a: A = from_nums(&syms::<A>("cell", dd::<A>(p)));
    ma_no_alloc(true);
    let _ = B::from(a);
    ma_no_alloc(false);
}
fn src_depths<A: Ix, B>(t: bool) -> (u64, u64, u64) {
    own_depths::<A>(t)
}
conv!(c35_from, convert, src_depths, [
    f2w_s: F2w => S2w, s2w_f: S2w => F2w, f3w_s: F3w => S3w, s3w_f: S3w => F3w,
    f2x8_s: F2x8 => S2x8, f2x16_s: F2x16 => S2x16, f2x32_s: F2x32 => S2x32, f2x64_s: F2x64 => S2x64, f2x128_s: F2x128 => S2x128,
    s2x8_f: S2x8 => F2x8, s2x16_f: S2x16 => F2x16, s2x32_f: S2x32 => F2x32, s2x64_f: S2x64 => F2x64, s2x128_f: S2x128 => F2x128,
    f3x8_s: F3x8 => S3x8, f3x16_s: F3x16 => S3x16, f3x32_s: F3x32 => S3x32, f3x64_s: F3x64 => S3x64,
    s3x8_f: S3x8 => F3x8, s3x16_f: S3x16 => F3x16, s3x32_f: S3x32 => F3x32, s3x64_f: S3x64 => F3x64
]);
fn raw<X: Raw>(p: usize) {
    let b: X::B = ma_sym("raw");
    ma_no_alloc(true);
    let x = X::raw(b, dd::<X>(p));
    let _ = x.dep();
    ma_no_alloc(false);
}
inst_list!(c35_raw, raw, own_depths, [
    f3x8: F3x8, f3x16: F3x16, f3x32: F3x32, f3x64: F3x64, s3x8: S3x8, s3x16: S3x16, s3x32: S3x32, s3x64: S3x64, s3x128: S3x128
]);
pub mod c35_fast {
    use super::*;
    pub fn all() {
        let g = Vector3::new(ma_sym("x"), ma_sym("y"), ma_sym("z"));
        ma_no_alloc(true);
        let mut o = 0;
        while o < 6 {
            let _ = F3x64::from_grid_index_fast(g, oord(o));
            o += 1;
        }
        ma_no_alloc(false);
    }
}
