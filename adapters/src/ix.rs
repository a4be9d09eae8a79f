//! A uniform view of all index types, and the reference vocabulary of the properties.
use crate::rt::*;
use morton_index::dimensions::{Octant, OctantOrdering, Quadrant, QuadrantOrdering};
use morton_index::nalgebra::{Vector2, Vector3};
use morton_index::*;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::num::NonZeroUsize;
use std::result::Result;

pub const FIXED: u8 = 0;
pub const STATIC: u8 = 1;
pub const DYN: u8 = 2;

pub trait Ix: Sized + Clone + PartialEq + Eq + PartialOrd + Ord + Hash + Default + Debug + MortonIndex {
    type C: Copy + PartialEq + Debug;
    const D: usize;
    const KIND: u8;
    /// Storage bits (0 for dynamic).
    const W: usize;
    /// Capacity in levels as documented: storage bits over dimension.
    const CAP: usize;
    fn mk(k: usize) -> Self::C;
    fn num(c: Self::C) -> usize;
    fn build(c: &[Self::C]) -> Result<Self, Error>;
    fn build_arr<const N: usize>(c: [Self::C; N]) -> Result<Self, Error>;
    fn get(&self, l: usize) -> Self::C;
    fn get_u(&self, l: usize) -> Self::C;
    fn set(&mut self, l: usize, c: Self::C);
    fn set_u(&mut self, l: usize, c: Self::C);
    fn dep(&self) -> usize;
    fn walk(&self, n: usize) -> Vec<Option<Self::C>>;
    fn collect_all(&self) -> Vec<Self::C>;
    fn drive_cells<R: Driver>(&self, e: &[usize], r: R);
    fn name(&self, n: MortonIndexNaming) -> String;
    fn grid(&self, ord: usize) -> [usize; 3];
    /// Kind-specific: fixed-depth types ignore `d`; dynamic and fixed types cannot fail.
    fn from_grid(g: [usize; 3], d: usize, ord: usize) -> Result<Self, Error>;
    fn inv(&self) -> Self;
    fn cap_reported() -> Option<usize>;
    const ORDERS: usize;
    /// Axis (0 = x, 1 = y, 2 = z) that receives bit `j` of the cell number.
    fn axis(ord: usize, j: usize) -> usize;
}

/// Something that exercises an iterator over cells.
pub trait Driver {
    fn go<I: Iterator>(&self, it: fn(&I::Item) -> usize, mk: &dyn Fn() -> I, e: &[usize]);
}
pub trait Vx: Ix {
    fn anc(&self, g: NonZeroUsize) -> Option<Self>;
    fn par(&self) -> Option<Self>;
    fn wd(&self, n: usize) -> Option<Self>;
    fn desc(&self, c: &[Self::C]) -> Option<Self>;
    fn chi(&self, c: Self::C) -> Option<Self>;
    fn zero(d: usize) -> Option<Self>;
}
/// Types built from raw bits (3D only).
pub trait Raw: Ix {
    type B: Copy;
    fn raw(b: Self::B, d: usize) -> Self;
    fn bit_at(b: Self::B, i: usize) -> bool;
}

pub fn quad(k: usize) -> Quadrant {
    match k {
        0 => Quadrant::Zero,
        1 => Quadrant::One,
        2 => Quadrant::Two,
        _ => Quadrant::Three,
    }
}
pub fn qnum(q: Quadrant) -> usize {
    match q {
        Quadrant::Zero => 0,
        Quadrant::One => 1,
        Quadrant::Two => 2,
        Quadrant::Three => 3,
    }
}
pub fn oct(k: usize) -> Octant {
    match k {
        0 => Octant::Zero,
        1 => Octant::One,
        2 => Octant::Two,
        3 => Octant::Three,
        4 => Octant::Four,
        5 => Octant::Five,
        6 => Octant::Six,
        _ => Octant::Seven,
    }
}
pub fn onum(q: Octant) -> usize {
    match q {
        Octant::Zero => 0,
        Octant::One => 1,
        Octant::Two => 2,
        Octant::Three => 3,
        Octant::Four => 4,
        Octant::Five => 5,
        Octant::Six => 6,
        Octant::Seven => 7,
    }
}
pub fn qord(o: usize) -> QuadrantOrdering {
    match o {
        0 => QuadrantOrdering::XY,
        _ => QuadrantOrdering::YX,
    }
}
pub fn oord(o: usize) -> OctantOrdering {
    match o {
        0 => OctantOrdering::XYZ,
        1 => OctantOrdering::XZY,
        2 => OctantOrdering::YXZ,
        3 => OctantOrdering::YZX,
        4 => OctantOrdering::ZXY,
        _ => OctantOrdering::ZYX,
    }
}
pub fn qaxis(o: usize, j: usize) -> usize {
    [[0, 1], [1, 0]][o][j]
}
pub fn oaxis(o: usize, j: usize) -> usize {
    // the first named axis takes bit 0, the second bit 1, the third bit 2
    [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][o][j]
}

macro_rules! common {
    ($cell:ty, $mk:path, $num:path, $st:ty) => {
        type C = $cell;
        fn mk(k: usize) -> $cell {
            $mk(k)
        }
        fn num(c: $cell) -> usize {
            $num(c)
        }
        fn build(c: &[$cell]) -> Result<Self, Error> {
            Self::try_from(c)
        }
        fn build_arr<const N: usize>(c: [$cell; N]) -> Result<Self, Error> {
            Self::try_from(c)
        }
        fn get(&self, l: usize) -> $cell {
            self.get_cell_at_level(l)
        }
        fn get_u(&self, l: usize) -> $cell {
            unsafe { self.get_cell_at_level_unchecked(l) }
        }
        fn set(&mut self, l: usize, c: $cell) {
            self.set_cell_at_level(l, c)
        }
        fn set_u(&mut self, l: usize, c: $cell) {
            unsafe { self.set_cell_at_level_unchecked(l, c) }
        }
        fn dep(&self) -> usize {
            MortonIndex::depth(self)
        }
        fn walk(&self, n: usize) -> Vec<Option<$cell>> {
            let mut it = self.cells();
            let mut v = Vec::with_capacity(n);
            let mut i = 0;
            while i < n {
                v.push(it.next());
                i += 1;
            }
            v
        }
        fn collect_all(&self) -> Vec<$cell> {
            self.cells().collect()
        }
        fn drive_cells<R: Driver>(&self, e: &[usize], r: R) {
            fn num(c: &$cell) -> usize {
                $num(*c)
            }
            r.go(num, &|| self.cells(), e)
        }
        fn name(&self, n: MortonIndexNaming) -> String {
            MortonIndex::to_string(self, n)
        }
        fn inv(&self) -> Self {
            self.inverted()
        }
        fn cap_reported() -> Option<usize> {
            <$st>::max_depth()
        }
    };
}
macro_rules! dim2 {
    () => {
        const D: usize = 2;
        const ORDERS: usize = 2;
        fn grid(&self, o: usize) -> [usize; 3] {
            let g = self.to_grid_index(qord(o));
            [g.x, g.y, 0]
        }
        fn axis(o: usize, j: usize) -> usize {
            qaxis(o, j)
        }
    };
}
macro_rules! dim3 {
    () => {
        const D: usize = 3;
        const ORDERS: usize = 6;
        fn grid(&self, o: usize) -> [usize; 3] {
            let g = self.to_grid_index(oord(o));
            [g.x, g.y, g.z]
        }
        fn axis(o: usize, j: usize) -> usize {
            oaxis(o, j)
        }
    };
}
macro_rules! vx {
    ($cell:ty) => {
        fn anc(&self, g: NonZeroUsize) -> Option<Self> {
            self.ancestor(g)
        }
        fn par(&self) -> Option<Self> {
            self.parent()
        }
        fn wd(&self, n: usize) -> Option<Self> {
            self.with_depth(n)
        }
        fn desc(&self, c: &[$cell]) -> Option<Self> {
            self.descendant(c)
        }
        fn chi(&self, c: $cell) -> Option<Self> {
            self.child(c)
        }
    };
}
macro_rules! fixed2 {
    ($n:ident, $b:ty, $w:expr) => {
        pub type $n = MortonIndex2D<FixedDepthStorage2D<$b>>;
        impl Ix for $n {
            const KIND: u8 = FIXED;
            const W: usize = $w;
            const CAP: usize = Self::W / 2;
            common!(Quadrant, quad, qnum, FixedDepthStorage2D<$b>);
            dim2!();
            fn from_grid(g: [usize; 3], _d: usize, o: usize) -> Result<Self, Error> {
                Ok(Self::from_grid_index(Vector2::new(g[0], g[1]), qord(o)))
            }
        }
    };
}
macro_rules! static2 {
    ($n:ident, $b:ty, $w:expr) => {
        pub type $n = MortonIndex2D<StaticStorage2D<$b>>;
        impl Ix for $n {
            const KIND: u8 = STATIC;
            const W: usize = $w;
            const CAP: usize = Self::W / 2;
            common!(Quadrant, quad, qnum, StaticStorage2D<$b>);
            dim2!();
            fn from_grid(g: [usize; 3], d: usize, o: usize) -> Result<Self, Error> {
                Self::from_grid_index(Vector2::new(g[0], g[1]), d, qord(o))
            }
        }
        impl Vx for $n {
            vx!(Quadrant);
            fn zero(d: usize) -> Option<Self> {
                Self::zeroed(d as u8)
            }
        }
    };
}
macro_rules! fixed3 {
    ($n:ident, $b:ty, $w:expr) => {
        pub type $n = MortonIndex3D<FixedDepthStorage3D<$b>>;
        impl Ix for $n {
            const KIND: u8 = FIXED;
            const W: usize = $w;
            const CAP: usize = Self::W / 3;
            common!(Octant, oct, onum, FixedDepthStorage3D<$b>);
            dim3!();
            fn from_grid(g: [usize; 3], _d: usize, o: usize) -> Result<Self, Error> {
                Ok(Self::from_grid_index(Vector3::new(g[0], g[1], g[2]), oord(o)))
            }
        }
    };
}
macro_rules! static3 {
    ($n:ident, $b:ty, $w:expr) => {
        pub type $n = MortonIndex3D<StaticStorage3D<$b>>;
        impl Ix for $n {
            const KIND: u8 = STATIC;
            const W: usize = $w;
            const CAP: usize = Self::W / 3;
            common!(Octant, oct, onum, StaticStorage3D<$b>);
            dim3!();
            fn from_grid(g: [usize; 3], d: usize, o: usize) -> Result<Self, Error> {
                Self::from_grid_index(Vector3::new(g[0], g[1], g[2]), d, oord(o))
            }
        }
        impl Vx for $n {
            vx!(Octant);
            fn zero(d: usize) -> Option<Self> {
                Self::zeroed(d as u8)
            }
        }
    };
}
macro_rules! raw_fixed3 {
    ($n:ident, $b:ty) => {
        impl Raw for $n {
            type B = $b;
            fn raw(b: $b, _d: usize) -> Self {
                Self::from_raw_index(b)
            }
            fn bit_at(b: $b, i: usize) -> bool {
                (b >> i) & 1 == 1
            }
        }
    };
}
macro_rules! raw_static3 {
    ($n:ident, $b:ty) => {
        impl Raw for $n {
            type B = $b;
            fn raw(b: $b, d: usize) -> Self {
                Self::from_raw_index(b, d as u8)
            }
            fn bit_at(b: $b, i: usize) -> bool {
                (b >> i) & 1 == 1
            }
        }
    };
}
fixed2!(F2x8, u8, 8);
fixed2!(F2x16, u16, 16);
fixed2!(F2x32, u32, 32);
fixed2!(F2x64, u64, 64);
fixed2!(F2x128, u128, 128);
static2!(S2x8, u8, 8);
static2!(S2x16, u16, 16);
static2!(S2x32, u32, 32);
static2!(S2x64, u64, 64);
static2!(S2x128, u128, 128);
fixed3!(F3x8, u8, 8);
raw_fixed3!(F3x8, u8);
fixed3!(F3x16, u16, 16);
raw_fixed3!(F3x16, u16);
fixed3!(F3x32, u32, 32);
raw_fixed3!(F3x32, u32);
fixed3!(F3x64, u64, 64);
raw_fixed3!(F3x64, u64);
#[cfg(target_pointer_width = "64")]
fixed3!(F3x128, u128, 128);
#[cfg(target_pointer_width = "64")]
raw_fixed3!(F3x128, u128);
static3!(S3x8, u8, 8);
raw_static3!(S3x8, u8);
static3!(S3x16, u16, 16);
raw_static3!(S3x16, u16);
static3!(S3x32, u32, 32);
raw_static3!(S3x32, u32);
static3!(S3x64, u64, 64);
raw_static3!(S3x64, u64);
static3!(S3x128, u128, 128);
raw_static3!(S3x128, u128);
fixed2!(F2w, usize, usize::BITS as usize);
static2!(S2w, usize, usize::BITS as usize);
fixed3!(F3w, usize, usize::BITS as usize);
raw_fixed3!(F3w, usize);
static3!(S3w, usize, usize::BITS as usize);
raw_static3!(S3w, usize);

pub type D2 = MortonIndex2D<DynamicStorage2D>;
impl Ix for D2 {
    const KIND: u8 = DYN;
    const W: usize = 0;
    const CAP: usize = usize::MAX;
    common!(Quadrant, quad, qnum, DynamicStorage2D);
    dim2!();
    fn from_grid(g: [usize; 3], d: usize, o: usize) -> Result<Self, Error> {
        Ok(Self::from_grid_index(Vector2::new(g[0], g[1]), d, qord(o)))
    }
}
impl Vx for D2 {
    vx!(Quadrant);
    fn zero(d: usize) -> Option<Self> {
        Some(Self::zeroed(d))
    }
}
pub type D3 = MortonIndex3D<DynamicStorage3D>;
impl Ix for D3 {
    const KIND: u8 = DYN;
    const W: usize = 0;
    const CAP: usize = usize::MAX;
    common!(Octant, oct, onum, DynamicStorage3D);
    dim3!();
    fn from_grid(g: [usize; 3], d: usize, o: usize) -> Result<Self, Error> {
        Ok(Self::from_grid_index(Vector3::new(g[0], g[1], g[2]), d, oord(o)))
    }
}
impl Vx for D3 {
    vx!(Octant);
    fn zero(d: usize) -> Option<Self> {
        Some(Self::zeroed(d))
    }
}

#[cfg(feature = "c33")]
#[path = "foreign.rs"]
pub mod foreign;
// ---------------------------------------------------------------- reference vocabulary

/// An abstract cell number: `dim` fresh bits.
pub fn sym_cell(name: &'static str, level: usize, dim: usize) -> usize {
    let mut k = 0usize;
    let mut j = dim;
    while j > 0 {
        j -= 1;
        k |= (ma_bit(name, level, j) as usize) << j;
    }
    k
}
/// `n` abstract cell numbers.
pub fn syms<X: Ix>(name: &'static str, n: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(sym_cell(name, i, X::D));
        i += 1;
    }
    v
}
pub fn mks<X: Ix>(ks: &[usize]) -> Vec<X::C> {
    let mut v = Vec::with_capacity(ks.len());
    let mut i = 0;
    while i < ks.len() {
        v.push(X::mk(ks[i]));
        i += 1;
    }
    v
}
pub fn ok<X>(r: Result<X, Error>, tag: &'static str) -> X {
    match r {
        Ok(x) => x,
        Err(_) => {
            ma_check(false, tag);
            ma_stop()
        }
    }
}
pub fn some<X>(r: Option<X>, tag: &'static str) -> X {
    match r {
        Some(x) => x,
        None => {
            ma_check(false, tag);
            ma_stop()
        }
    }
}
/// The depth an index of this type has after being built from `n` cells.
pub fn depth_of<X: Ix>(n: usize) -> usize {
    if X::KIND == FIXED {
        X::CAP
    } else {
        n
    }
}
/// `ks` followed by zeros up to the fixed depth.
pub fn pad<X: Ix>(ks: &[usize]) -> Vec<usize> {
    let mut v = Vec::with_capacity(depth_of::<X>(ks.len()));
    let mut i = 0;
    while i < depth_of::<X>(ks.len()) {
        v.push(if i < ks.len() { ks[i] } else { 0 });
        i += 1;
    }
    v
}
pub fn arr<X: Ix, const N: usize>(ks: &[usize]) -> Result<X, Error> {
    let mut a = [X::mk(0); N];
    let mut i = 0;
    while i < N {
        a[i] = X::mk(ks[i]);
        i += 1;
    }
    X::build_arr::<N>(a)
}
/// Construction from an array, for every array length up to 64.
pub fn from_arr<X: Ix>(ks: &[usize]) -> Result<X, Error> {
    macro_rules! lens {
        ($($n:literal)*) => {
            match ks.len() {
                $($n => arr::<X, $n>(ks),)*
                _ => X::build(&mks::<X>(ks)),
            }
        };
    }
    lens!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32
          33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64)
}
pub fn from_nums<X: Ix>(ks: &[usize]) -> X {
    ok(X::build(&mks::<X>(ks)), "construction from a cell list that fits succeeds")
}
/// Depth and every cell are as listed (unchecked reads, whose agreement with the checked ones is C01).
pub fn reads<X: Ix>(x: &X, ks: &[usize], tag: &'static str) {
    ma_check(x.dep() == ks.len(), tag);
    let mut l = 0;
    while l < ks.len() {
        ma_note("level", l);
        ma_check(X::num(x.get_u(l)) == ks[l], tag);
        l += 1;
    }
}

pub struct Trace {
    pub bytes: Vec<u8>,
}
impl Hasher for Trace {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.bytes.extend_from_slice(b)
    }
}
pub fn hash_of<H: Hash>(x: &H) -> Vec<u8> {
    let mut t = Trace { bytes: Vec::new() };
    x.hash(&mut t);
    t.bytes
}
/// Hash as a member of a list.
pub fn same_hash_in_list<H: Hash>(x: &H, y: &H, tag: &'static str) {
    let (mut s, mut t) = (Trace { bytes: Vec::new() }, Trace { bytes: Vec::new() });
    Hash::hash_slice(std::slice::from_ref(x), &mut s);
    Hash::hash_slice(std::slice::from_ref(y), &mut t);
    ma_same_bytes(&s.bytes, &t.bytes, tag);
}
pub fn same<X: Ix>(x: &X, y: &X, tag: &'static str) {
    ma_check(*x == *y, tag);
    ma_check(!(*x != *y), tag);
}
pub fn same_hash<X: Hash>(x: &X, y: &X, tag: &'static str) {
    ma_same_bytes(&hash_of(x), &hash_of(y), tag);
}
/// The index is indistinguishable from the one built from `ks`.
pub fn is<X: Ix>(x: &X, ks: &[usize], tag: &'static str) {
    reads(x, ks, tag);
    let y: X = from_nums(ks);
    same(x, &y, tag);
}
pub fn same_opt<X: Ix>(x: Option<X>, y: Option<X>, tag: &'static str) {
    match (x, y) {
        (Some(a), Some(b)) => same(&a, &b, tag),
        (None, None) => {}
        _ => ma_check(false, tag),
    }
}

/// Depths analysed for a task number: every depth for bounded types, a complete initial range and the
/// neighbourhoods of representation boundaries for dynamic types.
pub const DYN_ALL: usize = 24;
/// Past the complete range, the quick depths leave every remainder modulo 8 (and so every fill of the first byte).
pub const DYN_EXTRA: [usize; 42] = [
    31, 32, 33, 34, 37, 43, 46, 63, 64, 65, 128, 255, 256, 257, 300, 86, 127, 129, 171, 258, 512, 515, 25, 26, 27, 28, 29, 30, 35, 36, 39,
    40, 41, 42, 44, 47, 48, 62, 66, 67, 77, 261,
];
pub const DYN_EXTRA_QUICK: usize = 15;
/// All levels of an index, or for deep ones the first, the last, and those where a narrow number wraps.
pub fn some_levels(d: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut l = 0;
    while l < d {
        let m = l & 127;
        if d <= 80 || l < 4 || l + 4 >= d || m == 0 || m == 1 || m == 127 || l == d / 2 || l == d / 3 {
            v.push(l);
        }
        l += 1;
    }
    v
}
pub fn dd<X: Ix>(p: usize) -> usize {
    if X::KIND != DYN || p <= DYN_ALL {
        p
    } else {
        DYN_EXTRA[p - DYN_ALL - 1]
    }
}
/// Task numbers 0..=max.
pub fn all_depths<X: Ix>(thorough: bool) -> (u64, u64, u64) {
    if X::KIND == DYN {
        let e = if thorough { DYN_EXTRA.len() } else { DYN_EXTRA_QUICK };
        (0, (DYN_ALL + e) as u64, 1)
    } else {
        (0, X::CAP as u64, 1)
    }
}
/// Only the full depth for fixed-depth types.
pub fn own_depths<X: Ix>(thorough: bool) -> (u64, u64, u64) {
    if X::KIND == FIXED {
        (X::CAP as u64, X::CAP as u64, 1)
    } else {
        all_depths::<X>(thorough)
    }
}

#[cfg(target_pointer_width = "64")]
macro_rules! inst {
    ($m:ident, $f:ident, $r:ident) => {
        inst_list!($m, $f, $r, [
            f2x8: F2x8, f2x16: F2x16, f2x32: F2x32, f2x64: F2x64, f2x128: F2x128,
            s2x8: S2x8, s2x16: S2x16, s2x32: S2x32, s2x64: S2x64, s2x128: S2x128,
            f3x8: F3x8, f3x16: F3x16, f3x32: F3x32, f3x64: F3x64, f3x128: F3x128,
            s3x8: S3x8, s3x16: S3x16, s3x32: S3x32, s3x64: S3x64, s3x128: S3x128,
            f2w: F2w, f3w: F3w, s2w: S2w, s3w: S3w,
            d2: D2, d3: D3
        ]);
    };
}
#[cfg(target_pointer_width = "32")]
macro_rules! inst {
    ($m:ident, $f:ident, $r:ident) => {
        inst_list!($m, $f, $r, [
            f2x8: F2x8, f2x16: F2x16, f2x32: F2x32, f2x64: F2x64, f2x128: F2x128,
            s2x8: S2x8, s2x16: S2x16, s2x32: S2x32, s2x64: S2x64, s2x128: S2x128,
            f3x8: F3x8, f3x16: F3x16, f3x32: F3x32, f3x64: F3x64,
            s3x8: S3x8, s3x16: S3x16, s3x32: S3x32, s3x64: S3x64, s3x128: S3x128,
            f2w: F2w, f3w: F3w, s2w: S2w, s3w: S3w,
            d2: D2, d3: D3
        ]);
    };
}
macro_rules! inst_v {
    ($m:ident, $f:ident, $r:ident) => {
        inst_list!($m, $f, $r, [
            s2x8: S2x8, s2x16: S2x16, s2x32: S2x32, s2x64: S2x64, s2x128: S2x128,
            s3x8: S3x8, s3x16: S3x16, s3x32: S3x32, s3x64: S3x64, s3x128: S3x128,
            s2w: S2w, s3w: S3w, d2: D2, d3: D3
        ]);
    };
}
macro_rules! inst_list {
    ($m:ident, $f:ident, $r:ident, [$($n:ident : $t:ty),*]) => {
        pub mod $m {
            use super::*;
            $(pub fn $n(p: usize) { $f::<$t>(p) })*
            pub mod range {
                use super::*;
                $(pub fn $n(thorough: bool) -> (u64, u64, u64) { $r::<$t>(thorough) })*
            }
        }
    };
}
