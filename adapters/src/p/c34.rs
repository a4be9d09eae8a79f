//! Entries of property C34: the storage types over dimensions from outside the crate.
use super::*;

/// A dimension with `N` axes.
pub struct Axes<const N: usize>;
/// A cell of it, one of 2^N.
#[derive(Clone, Copy, PartialEq)]
pub struct Orthant<const N: usize>(u8);
#[derive(Default)]
pub struct Plain;
impl<const N: usize> TryFrom<usize> for Orthant<N> {
    type Error = Error;
    fn try_from(k: usize) -> Result<Self, Error> {
        if k >> N == 0 {
            Ok(Orthant(k as u8))
        } else {
            Err(Error::CellIndexOutOfRange)
        }
    }
}
impl<const N: usize> Into<usize> for Orthant<N> {
    fn into(self) -> usize {
        self.0 as usize
    }
}
impl<const N: usize> Dimension for Axes<N> {
    type Cell = Orthant<N>;
    type GridIndex = [usize; N];
    type CellOrdering = Plain;
    const DIMENSIONALITY: usize = N;
}

fn same_reads<T: StorageType<Dimension = Axes<N>>, B: Bits, const N: usize>(a: &B, b: &B, levels: usize, except: usize, tag: &'static str) {
    let mut i = 0;
    while i < levels {
        if i != except {
            ma_note("other level", i);
            let x: usize = unsafe { T::get_cell_at_level_unchecked(a, i) }.into();
            let y: usize = unsafe { T::get_cell_at_level_unchecked(b, i) }.into();
            ma_check(x == y, tag);
        }
        i += 1;
    }
}
/// The accessors of `T` on `bits`, at each of `levels` levels.
fn accessors<T: StorageType<Dimension = Axes<N>>, B: Bits + Clone + PartialEq, const N: usize>(bits: B, levels: usize) {
    ma_check(T::DIMENSIONALITY == N, "the storage type reports its dimension");
    let nk = sym_cell("new", 0, N);
    let mut l = 0;
    while l < levels {
        ma_note("level", l);
        let was: usize = unsafe { T::get_cell_at_level_unchecked(&bits, l) }.into();
        let mut b = bits.clone();
        unsafe { T::set_cell_at_level_unchecked(&mut b, l, Orthant(nk as u8)) };
        let is: usize = unsafe { T::get_cell_at_level_unchecked(&b, l) }.into();
        ma_check(is == nk, "a cell that was written is read back");
        same_reads::<T, B, N>(&bits, &b, levels, l, "a write through a storage type leaves the other levels as they were");
        unsafe { T::set_cell_at_level_unchecked(&mut b, l, Orthant(was as u8)) };
        ma_check(b == bits, "writing a cell back restores the bits, those of no level included");
        l += 1;
    }
}
fn fixed<B: FixedStorageType, const N: usize>() {
    let n = B::BITS / N;
    ma_check(<FixedDepthStorage<Axes<N>, B> as StorageType>::MAX_LEVELS == n && FixedDepthStorage::<Axes<N>, B>::max_depth() == Some(n), "the capacity is the number of bits over the dimension");
    ma_check(<StaticStorage<Axes<N>, B> as StorageType>::MAX_LEVELS == n && StaticStorage::<Axes<N>, B>::max_depth() == Some(n), "the capacity is the number of bits over the dimension");
    accessors::<FixedDepthStorage<Axes<N>, B>, B, N>(ma_sym("bits"), n);
    accessors::<StaticStorage<Axes<N>, B>, B, N>(ma_sym("bits"), n);
}
fn dynamic<const N: usize>(len: usize) {
    ma_check(DynamicStorage::<Axes<N>>::max_depth().is_none(), "dynamic storage has no capacity");
    let mut v: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < len {
        v.push(sym_cell("byte", i, 8) as u8);
        i += 1;
    }
    accessors::<DynamicStorage<Axes<N>>, Vec<u8>, N>(v, len * 8 / N);
}
/// A storage over such a dimension, with the provided methods of the trait.
#[derive(Default, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Held<const N: usize> {
    word: u64,
}
impl<const N: usize> Storage<Axes<N>> for Held<N> {
    type StorageType = FixedDepthStorage<Axes<N>, u64>;
    type Bits = u64;
    fn bits(&self) -> &u64 {
        &self.word
    }
    fn bits_mut(&mut self) -> &mut u64 {
        &mut self.word
    }
    fn depth(&self) -> usize {
        64 / N
    }
}
fn held<const N: usize>() {
    ma_check(Held::<N>::max_depth() == Some(64 / N), "the capacity is the number of bits over the dimension");
    let mut s = Held::<N>::default();
    let mut ks = Vec::new();
    let mut l = 0;
    while l < 64 / N {
        let k = sym_cell("cell", l, N);
        unsafe { s.set_cell_at_level_unchecked(l, Orthant(k as u8)) };
        ks.push(k);
        l += 1;
    }
    l = 0;
    while l < 64 / N {
        ma_note("level", l);
        let k: usize = unsafe { s.get_cell_at_level_unchecked(l) }.into();
        ma_check(k == ks[l], "the storage holds the cells written");
        l += 1;
    }
}
macro_rules! dims {
    ($m:ident, $f:ident, [$($n:ident $t:ty, $d:literal);*]) => {
        pub mod $m {
            use super::*;
            $(pub fn $n() { $f::<$t, $d>() })*
        }
    };
}
dims!(c34_fixed, fixed, [
    w8d1 u8, 1; w8d2 u8, 2; w8d3 u8, 3; w8d4 u8, 4; w8d5 u8, 5; w8d6 u8, 6; w8d7 u8, 7; w8d8 u8, 8;
    w16d1 u16, 1; w16d2 u16, 2; w16d3 u16, 3; w16d4 u16, 4; w16d5 u16, 5; w16d6 u16, 6; w16d7 u16, 7; w16d8 u16, 8;
    w32d1 u32, 1; w32d2 u32, 2; w32d3 u32, 3; w32d4 u32, 4; w32d5 u32, 5; w32d6 u32, 6; w32d7 u32, 7; w32d8 u32, 8;
    w64d1 u64, 1; w64d2 u64, 2; w64d3 u64, 3; w64d4 u64, 4; w64d5 u64, 5; w64d6 u64, 6; w64d7 u64, 7; w64d8 u64, 8;
    w128d1 u128, 1; w128d2 u128, 2; w128d3 u128, 3; w128d4 u128, 4; w128d5 u128, 5; w128d6 u128, 6; w128d7 u128, 7; w128d8 u128, 8
]);
pub mod c34_dynamic {
    use super::*;
    pub fn d1(p: usize) { dynamic::<1>(p) }
    pub fn d2(p: usize) { dynamic::<2>(p) }
    pub fn d3(p: usize) { dynamic::<3>(p) }
    pub fn d4(p: usize) { dynamic::<4>(p) }
    pub fn d5(p: usize) { dynamic::<5>(p) }
    pub fn d6(p: usize) { dynamic::<6>(p) }
    pub fn d7(p: usize) { dynamic::<7>(p) }
    pub fn d8(p: usize) { dynamic::<8>(p) }
    pub mod range {
        fn r(t: bool) -> (u64, u64, u64) { (0, if t { 24 } else { 11 }, 1) }
        pub fn d1(t: bool) -> (u64, u64, u64) { r(t) }
        pub fn d2(t: bool) -> (u64, u64, u64) { r(t) }
        pub fn d3(t: bool) -> (u64, u64, u64) { r(t) }
        pub fn d4(t: bool) -> (u64, u64, u64) { r(t) }
        pub fn d5(t: bool) -> (u64, u64, u64) { r(t) }
        pub fn d6(t: bool) -> (u64, u64, u64) { r(t) }
        pub fn d7(t: bool) -> (u64, u64, u64) { r(t) }
        pub fn d8(t: bool) -> (u64, u64, u64) { r(t) }
    }
}
pub mod c34_storage {
    use super::*;
    pub fn d1() { held::<1>() }
    pub fn d2() { held::<2>() }
    pub fn d3() { held::<3>() }
    pub fn d4() { held::<4>() }
    pub fn d5() { held::<5>() }
    pub fn d6() { held::<6>() }
    pub fn d7() { held::<7>() }
    pub fn d8() { held::<8>() }
}
