//! Entries, one module per property (a check compiles only its own).
#![allow(unused_macros)]
pub use crate::ix::*;
pub use crate::rt::*;
pub use morton_index::align::Alignable;
pub use morton_index::dimensions::*;
pub use morton_index::helper::*;
pub use morton_index::nalgebra::{Vector2, Vector3};
pub use morton_index::number::*;
pub use morton_index::*;
pub use std::cmp::Ordering;
pub use std::convert::TryFrom;
pub use std::fmt;
pub use std::fmt::Write;
pub use std::hash::Hash;
pub use std::num::NonZeroUsize;
pub use std::result::Result;

macro_rules! conv {
    ($m:ident, $f:ident, $r:ident, [$($n:ident : $a:ty => $b:ty),*]) => {
        pub mod $m {
            use super::*;
            $(pub fn $n(p: usize) { $f::<$a, $b>(p) })*
            pub mod range {
                use super::*;
                $(pub fn $n(thorough: bool) -> (u64, u64, u64) { $r::<$a, $b>(thorough) })*
            }
        }
    };
}
#[cfg(target_pointer_width = "64")]
macro_rules! conv_dyn {
    ($m:ident, $f:ident, $r:ident) => {
        conv!($m, $f, $r, [
            d2_f2x8: D2 => F2x8, d2_f2x16: D2 => F2x16, d2_f2x32: D2 => F2x32, d2_f2x64: D2 => F2x64, d2_f2x128: D2 => F2x128,
            d3_f3x8: D3 => F3x8, d3_f3x16: D3 => F3x16, d3_f3x32: D3 => F3x32, d3_f3x64: D3 => F3x64, d3_f3x128: D3 => F3x128,
            d2_f2w: D2 => F2w, d2_s2w: D2 => S2w, d3_f3w: D3 => F3w, d3_s3w: D3 => S3w,
            d2_s2x8: D2 => S2x8, d2_s2x16: D2 => S2x16, d2_s2x32: D2 => S2x32, d2_s2x64: D2 => S2x64, d2_s2x128: D2 => S2x128,
            d3_s3x8: D3 => S3x8, d3_s3x16: D3 => S3x16, d3_s3x32: D3 => S3x32, d3_s3x64: D3 => S3x64, d3_s3x128: D3 => S3x128
        ]);
    };
}
#[cfg(target_pointer_width = "32")]
macro_rules! conv_dyn {
    ($m:ident, $f:ident, $r:ident) => {
        conv!($m, $f, $r, [
            d2_f2x8: D2 => F2x8, d2_f2x16: D2 => F2x16, d2_f2x32: D2 => F2x32, d2_f2x64: D2 => F2x64, d2_f2x128: D2 => F2x128,
            d3_f3x8: D3 => F3x8, d3_f3x16: D3 => F3x16, d3_f3x32: D3 => F3x32, d3_f3x64: D3 => F3x64,
            d2_f2w: D2 => F2w, d2_s2w: D2 => S2w, d3_f3w: D3 => F3w, d3_s3w: D3 => S3w,
            d2_s2x8: D2 => S2x8, d2_s2x16: D2 => S2x16, d2_s2x32: D2 => S2x32, d2_s2x64: D2 => S2x64, d2_s2x128: D2 => S2x128,
            d3_s3x8: D3 => S3x8, d3_s3x16: D3 => S3x16, d3_s3x32: D3 => S3x32, d3_s3x64: D3 => S3x64, d3_s3x128: D3 => S3x128
        ]);
    };
}

pub fn none<Y>(r: Option<Y>, tag: &'static str) {
    ma_check(r.is_none(), tag)
}

/// Depths accepted by `from_grid_index`.
pub fn grid_depths<X: Ix>(t: bool) -> (u64, u64, u64) {
    match X::KIND {
        FIXED => (X::CAP as u64, X::CAP as u64, 1),
        DYN => (0, usize::BITS as u64 / 2, 1),
        _ => (0, X::CAP as u64, 1),
    }
}

/// Two families of abstract cells, allocated level by level.
pub fn two<X: Ix>(n: usize) -> (Vec<usize>, Vec<usize>) {
    let mut a = Vec::with_capacity(n);
    let mut b = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        let mut x = 0;
        let mut y = 0;
        let mut j = X::D;
        while j > 0 {
            j -= 1;
            x |= (ma_bit("a", i, j) as usize) << j;
            y |= (ma_bit("b", i, j) as usize) << j;
        }
        a.push(x);
        b.push(y);
        i += 1;
    }
    (a, b)
}

/// Deep indices are compared with abstract cells at `some_levels` and equal fixed cells elsewhere.
pub fn two_deep<X: Ix>(d: usize, n: usize) -> (Vec<usize>, Vec<usize>) {
    if d <= 80 {
        return two::<X>(n);
    }
    let ls = some_levels(d);
    let (p, q) = two::<X>(ls.len());
    let mut a = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        a.push((i * 5 + 2) & ((1 << X::D) - 1));
        i += 1;
    }
    let mut b = a.clone();
    let mut i = 0;
    while i < ls.len() {
        a[ls[i]] = p[i];
        b[ls[i]] = q[i];
        i += 1;
    }
    (a, b)
}

/// Depths compared with depth `d`.
pub fn partners<X: Ix>(d: usize, thorough: bool) -> Vec<usize> {
    let mut v = Vec::new();
    if X::KIND == FIXED {
        v.push(X::CAP);
    } else {
        let mut e = d;
        let m = if X::KIND == DYN { d + 9 } else { X::CAP };
        if X::KIND == DYN && d > 80 {
            return vec![d, d + 1, d + 9];
        }
        while e <= m {
            if X::W <= 32 || thorough || e <= d + 3 || e == m || e == (d + m) / 2 {
                v.push(e);
            }
            e += 1;
        }
        if X::KIND == DYN && d < 3 {
            v.push(d + 128);
            v.push(d + 256);
        }
    }
    v
}

/// Levels and depths where 16-bit numbers wrap.
pub const HUGE: usize = 65541;
pub const FAR: [usize; 13] = [0, 1, 4, 5, 255, 1023, 4098, 16385, 32768, 65535, 65536, 65539, 65540];
/// A dynamic index of `HUGE` levels with zero cells except at the levels in `FAR`.
pub fn huge<X: Vx>(ks: &[usize]) -> X {
    let mut x = some(X::zero(HUGE), "a dynamic index of any depth exists");
    let mut i = 0;
    while i < FAR.len() {
        unsafe { x.set_u(FAR[i], X::mk(ks[i])) };
        i += 1;
    }
    x
}
/// The cells of `huge` below depth `d`.
pub fn far_reads<X: Ix>(x: &X, ks: &[usize], d: usize, tag: &'static str) {
    ma_check(x.dep() == d, tag);
    let mut i = 0;
    while i < FAR.len() {
        if FAR[i] < d {
            ma_note("level", FAR[i]);
            ma_check(X::num(x.get_u(FAR[i])) == ks[i], tag);
        }
        i += 1;
    }
    for l in [2, d / 3, d / 2] {
        if d > 100 && !FAR.contains(&l) {
            ma_note("level", l);
            ma_check(X::num(x.get_u(l)) == 0, tag);
        }
    }
}
/// The cell list of `huge`.
pub fn huge_cells(ks: &[usize]) -> Vec<usize> {
    let mut v = [0usize].repeat(HUGE);
    let mut i = 0;
    while i < FAR.len() {
        v[FAR[i]] = ks[i];
        i += 1;
    }
    v
}
pub fn one_task<X>(_t: bool) -> (u64, u64, u64) {
    (0, 0, 1)
}

/// The cells a grid index stands for.
pub fn cells_of_grid<X: Ix>(g: [usize; 3], d: usize, o: usize) -> Vec<usize> {
    let mut ks = Vec::with_capacity(d);
    let mut l = 0;
    while l < d {
        let pos = d - 1 - l;
        let mut k = 0;
        let mut j = 0;
        while j < X::D {
            let b = if pos < usize::BITS as usize { (g[X::axis(o, j)] >> pos) & 1 } else { 0 };
            k |= b << j;
            j += 1;
        }
        ks.push(k);
        l += 1;
    }
    ks
}

pub fn grid_of<X: Ix>(ks: &[usize], o: usize) -> [usize; 3] {
    let mut g = [0usize; 3];
    let d = ks.len();
    let mut l = 0;
    while l < d {
        let mut j = 0;
        while j < X::D {
            g[X::axis(o, j)] |= ((ks[l] >> j) & 1) << (d - 1 - l);
            j += 1;
        }
        l += 1;
    }
    g
}

pub fn bytes_of_len(n: usize) -> (Vec<u8>, Vec<u8>) {
    let mut v = Vec::with_capacity(n);
    let mut w = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(sym_cell("byte", i, 8) as u8);
        w.push(sym_cell("new", i, 8) as u8);
        i += 1;
    }
    (v, w)
}

pub fn once<X>(_t: bool) -> (u64, u64, u64) {
    (0, 0, 1)
}
pub fn word_depths<X: Ix>(_t: bool) -> (u64, u64, u64) {
    let b = usize::BITS as u64;
    match X::KIND {
        FIXED if X::CAP as u64 > b => (1, 0, 1),
        FIXED => (X::CAP as u64, X::CAP as u64, 1),
        STATIC if (X::CAP as u64) < b => (0, X::CAP as u64, 1),
        _ => (0, b, 1),
    }
}
pub trait Int: Bits + Copy + PartialEq + std::ops::Shr<usize, Output = Self> + std::ops::Shl<usize, Output = Self> + std::ops::BitAnd<Output = Self> + std::ops::BitOr<Output = Self> + std::ops::Not<Output = Self> {
    const W: usize;
    const ZERO: Self;
    fn low(n: usize) -> Self;
    fn word(self) -> usize;
    fn of_word(w: usize) -> Self;
}
macro_rules! ints {
    ($($t:ty)*) => { $(impl Int for $t {
        const W: usize = <$t>::BITS as usize;
        const ZERO: Self = 0;
        fn low(n: usize) -> Self {
            if n == Self::W { <$t>::MAX } else { (1 << n) - 1 }
        }
        fn word(self) -> usize { self as usize }
        fn of_word(w: usize) -> Self { w as $t }
    })* };
}
ints!(u8 u16 u32 u64 u128 usize);

#[cfg(any(feature = "c01", feature = "c33", feature = "all"))]
pub mod c01;
#[cfg(any(feature = "c02", feature = "c33", feature = "all"))]
pub mod c02;
#[cfg(any(feature = "c03", feature = "c33", feature = "all"))]
pub mod c03;
#[cfg(any(feature = "c04", feature = "c33", feature = "all"))]
pub mod c04;
#[cfg(any(feature = "c05", feature = "c33", feature = "all"))]
pub mod c05;
#[cfg(any(feature = "c06", feature = "c33", feature = "all"))]
pub mod c06;
#[cfg(any(feature = "c07", feature = "c33", feature = "all"))]
pub mod c07;
#[cfg(any(feature = "c08", feature = "c33", feature = "all"))]
pub mod c08;
#[cfg(any(feature = "c09", feature = "c33", feature = "all"))]
pub mod c09;
#[cfg(any(feature = "c10", feature = "c33", feature = "all"))]
pub mod c10;
#[cfg(any(feature = "c11", feature = "all"))]
pub mod c11;
#[cfg(any(feature = "c12", feature = "all"))]
pub mod c12;
#[cfg(any(feature = "c13", feature = "c33", feature = "all"))]
pub mod c13;
#[cfg(any(feature = "c14", feature = "c33", feature = "all"))]
pub mod c14;
#[cfg(any(feature = "c15", feature = "all"))]
pub mod c15;
#[cfg(any(feature = "c16", feature = "all"))]
pub mod c16;
#[cfg(any(feature = "c17", feature = "c33", feature = "all"))]
pub mod c17;
#[cfg(any(feature = "c18", feature = "c33", feature = "all"))]
pub mod c18;
#[cfg(any(feature = "c19", feature = "all"))]
pub mod c19;
#[cfg(any(feature = "c20", feature = "all"))]
pub mod c20;
#[cfg(any(feature = "c23", feature = "c33", feature = "all"))]
pub mod c23;
#[cfg(any(feature = "c24", feature = "all"))]
pub mod c24;
#[cfg(any(feature = "c25", feature = "all"))]
pub mod c25;
#[cfg(any(feature = "c27", feature = "all"))]
pub mod c27;
#[cfg(any(feature = "c28", feature = "all"))]
pub mod c28;
#[cfg(any(feature = "c29", feature = "all"))]
pub mod c29;
#[cfg(feature = "c30")]
pub mod c30;
#[cfg(any(feature = "c31", feature = "all"))]
pub mod c31;
#[cfg(feature = "c33")]
pub mod c33;
#[cfg(any(feature = "c34", feature = "all"))]
pub mod c34;
#[cfg(feature = "c35")]
pub mod c35;
