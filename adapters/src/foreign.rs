//! Storage and bit types from outside the crate, written to the documented contracts of the traits.
use super::*;
use morton_index::dimensions::{Dim2D, Dim3D, Dimension};
use morton_index::number::{Bits, Endianness};
use std::ops::Range;

/// An unsigned number of 96 bits, a width no integer has.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct B96(u128);
const M96: u128 = (1 << 96) - 1;
/// Unsigned numbers of 24 and 40 bits.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct B24(u32);
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct B40(u64);
/// An unsigned number of 64 bits that is not u64.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct B64(u64);
macro_rules! bits {
    ($t:ident, $inner:ty, $w:expr, $mask:expr) => {
        impl Bits for $t {
            const BITS: usize = $w;
            unsafe fn get_bits(&self, r: Range<usize>) -> Self {
                let n = r.end - r.start;
                let m: $inner = if n >= $w { $mask } else { (1 << n) - 1 };
                if r.start >= $w {
                    return $t(0);
                }
                $t((self.0 >> r.start) & m)
            }
            unsafe fn get_bits_as_usize(&self, r: Range<usize>) -> usize {
                self.get_bits(r).0 as usize
            }
            unsafe fn set_bits(&mut self, r: Range<usize>, v: Self) {
                let n = r.end - r.start;
                let m: $inner = if n >= $w { $mask } else { (1 << n) - 1 };
                self.0 = ((self.0 & !(m << r.start)) | ((v.0 & m) << r.start)) & $mask;
            }
            unsafe fn set_bits_from_usize(&mut self, r: Range<usize>, v: usize) {
                self.set_bits(r, $t(v as $inner & $mask))
            }
            unsafe fn as_u8(self) -> u8 {
                self.0 as u8
            }
            unsafe fn as_u16(self) -> u16 {
                self.0 as u16
            }
            unsafe fn as_u32(self) -> u32 {
                self.0 as u32
            }
            unsafe fn as_u64(self) -> u64 {
                self.0 as u64
            }
            unsafe fn as_u128(self) -> u128 {
                self.0 as u128
            }
            unsafe fn as_usize(self) -> usize {
                self.0 as usize
            }
            unsafe fn as_u8_slice(&self) -> &[u8] {
                let skip = if cfg!(target_endian = "little") { 0 } else { std::mem::size_of::<$inner>() - $w / 8 };
                std::slice::from_raw_parts((self as *const $t as *const u8).add(skip), $w / 8)
            }
            unsafe fn as_u8_slice_mut(&mut self) -> &mut [u8] {
                let skip = if cfg!(target_endian = "little") { 0 } else { std::mem::size_of::<$inner>() - $w / 8 };
                std::slice::from_raw_parts_mut((self as *mut $t as *mut u8).add(skip), $w / 8)
            }
            unsafe fn from_u8(v: u8) -> Self {
                $t(v as $inner & $mask)
            }
            unsafe fn from_u16(v: u16) -> Self {
                $t(v as $inner & $mask)
            }
            unsafe fn from_u32(v: u32) -> Self {
                $t(v as $inner & $mask)
            }
            unsafe fn from_u64(v: u64) -> Self {
                $t(v as $inner & $mask)
            }
            unsafe fn from_u128(v: u128) -> Self {
                $t(v as $inner & $mask)
            }
            unsafe fn from_usize(v: usize) -> Self {
                $t(v as $inner & $mask)
            }
            unsafe fn from_u8_slice(b: &[u8], e: Endianness) -> Self {
                let mut r: $inner = 0;
                let mut i = 0;
                while i < $w / 8 {
                    let x = if i < b.len() { b[i] } else { 0 };
                    let at = if e == Endianness::LittleEndian { i } else { $w / 8 - 1 - i };
                    r |= (x as $inner) << (8 * at);
                    i += 1;
                }
                $t(r)
            }
            fn size(&self) -> usize {
                $w / 8
            }
        }
    };
}
bits!(B96, u128, 96, M96);
bits!(B24, u32, 24, (1 << 24) - 1);
bits!(B40, u64, 40, (1 << 40) - 1);
bits!(B64, u64, 64, u64::MAX);
fixed2!(F2u64, B64, 64);
static2!(S2u64, B64, 64);
fixed3!(F3u64, B64, 64);
static3!(S3u64, B64, 64);
fixed2!(F2u24, B24, 24);
static2!(S2u24, B24, 24);
fixed3!(F3u24, B24, 24);
static3!(S3u24, B24, 24);
fixed2!(F2u40, B40, 40);
static2!(S2u40, B40, 40);
fixed3!(F3u40, B40, 40);
static3!(S3u40, B40, 40);
fixed2!(F2u96, B96, 96);
static2!(S2u96, B96, 96);
#[cfg(target_pointer_width = "64")]
fixed3!(F3u96, B96, 96);
static3!(S3u96, B96, 96);

/// One byte per cell, root first; cells are found through the storage type.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Plain2(Vec<u8>);
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Plain3(Vec<u8>);
pub struct PlainType2;
pub struct PlainType3;
/// A list of cells; cells are found by the storage itself, and its bits mean nothing.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Listed<C: Copy> {
    cells: Vec<C>,
}
impl<C: Copy> Default for Listed<C> {
    fn default() -> Self {
        Listed { cells: Vec::new() }
    }
}
static NOTHING: Vec<u8> = Vec::new();
/// The deepest index `Plain` and `Listed` accept.
pub const LIMIT: usize = 12;

macro_rules! plain {
    ($p:ident, $t:ident, $dim:ty, $cell:ty, $mk:path, $num:path, $d:expr) => {
        impl StorageType for $t {
            type Dimension = $dim;
            const MAX_LEVELS: usize = LIMIT;
            const DIMENSIONALITY: usize = $d;
            fn max_depth() -> Option<usize> {
                Some(LIMIT)
            }
            unsafe fn get_cell_at_level_unchecked<T: Bits>(bits: &T, level: usize) -> $cell {
                $mk(bits.as_u8_slice()[level] as usize)
            }
            unsafe fn set_cell_at_level_unchecked<T: Bits>(bits: &mut T, level: usize, cell: $cell) {
                bits.as_u8_slice_mut()[level] = $num(cell) as u8
            }
        }
        impl Storage<$dim> for $p {
            type StorageType = $t;
            type Bits = Vec<u8>;
            fn bits(&self) -> &Vec<u8> {
                &self.0
            }
            fn bits_mut(&mut self) -> &mut Vec<u8> {
                &mut self.0
            }
            fn depth(&self) -> usize {
                self.0.len()
            }
        }
        impl VariableDepthStorage<$dim> for $p {
            fn ancestor(&self, g: NonZeroUsize) -> Option<Self> {
                if g.get() > self.0.len() {
                    return None;
                }
                Some($p(self.0[..self.0.len() - g.get()].to_vec()))
            }
            fn descendant(&self, c: &[$cell]) -> Option<Self> {
                if self.0.len() + c.len() > LIMIT {
                    return None;
                }
                let mut r = self.0.clone();
                for x in c {
                    r.push($num(*x) as u8);
                }
                Some($p(r))
            }
        }
        impl<'a> TryFrom<&'a [$cell]> for $p {
            type Error = Error;
            fn try_from(c: &'a [$cell]) -> Result<Self, Error> {
                match VariableDepthStorage::<$dim>::descendant(&$p(Vec::new()), c) {
                    Some(p) => Ok(p),
                    None => Err(Error::DepthLimitedExceeded { max_depth: LIMIT }),
                }
            }
        }
        impl<const N: usize> TryFrom<[$cell; N]> for $p {
            type Error = Error;
            fn try_from(c: [$cell; N]) -> Result<Self, Error> {
                $p::try_from(&c[..])
            }
        }
        impl<'a> IntoIterator for &'a $p {
            type Item = $cell;
            type IntoIter = std::iter::Map<std::slice::Iter<'a, u8>, fn(&u8) -> $cell>;
            fn into_iter(self) -> Self::IntoIter {
                fn one(k: &u8) -> $cell {
                    $mk(*k as usize)
                }
                self.0.iter().map(one)
            }
        }
        impl Storage<$dim> for Listed<$cell> {
            type StorageType = $t;
            type Bits = Vec<u8>;
            fn bits(&self) -> &Vec<u8> {
                &NOTHING
            }
            fn bits_mut(&mut self) -> &mut Vec<u8> {
                ma_unsupported("bits of a storage that has none")
            }
            fn depth(&self) -> usize {
                self.cells.len()
            }
            unsafe fn get_cell_at_level_unchecked(&self, level: usize) -> $cell {
                self.cells[level]
            }
            unsafe fn set_cell_at_level_unchecked(&mut self, level: usize, cell: $cell) {
                self.cells[level] = cell
            }
        }
        impl VariableDepthStorage<$dim> for Listed<$cell> {
            fn ancestor(&self, g: NonZeroUsize) -> Option<Self> {
                if g.get() > self.cells.len() {
                    return None;
                }
                Some(Listed { cells: self.cells[..self.cells.len() - g.get()].to_vec() })
            }
            fn descendant(&self, c: &[$cell]) -> Option<Self> {
                if self.cells.len() + c.len() > LIMIT {
                    return None;
                }
                let mut r = self.clone();
                r.cells.extend_from_slice(c);
                Some(r)
            }
        }
        impl<'a> TryFrom<&'a [$cell]> for Listed<$cell> {
            type Error = Error;
            fn try_from(c: &'a [$cell]) -> Result<Self, Error> {
                match Listed::default().descendant(c) {
                    Some(p) => Ok(p),
                    None => Err(Error::DepthLimitedExceeded { max_depth: LIMIT }),
                }
            }
        }
        impl<const N: usize> TryFrom<[$cell; N]> for Listed<$cell> {
            type Error = Error;
            fn try_from(c: [$cell; N]) -> Result<Self, Error> {
                Self::try_from(&c[..])
            }
        }
        impl<'a> IntoIterator for &'a Listed<$cell> {
            type Item = $cell;
            type IntoIter = std::iter::Copied<std::slice::Iter<'a, $cell>>;
            fn into_iter(self) -> Self::IntoIter {
                self.cells.iter().copied()
            }
        }
    };
}
plain!(Plain2, PlainType2, Dim2D, Quadrant, quad, qnum, 2);
plain!(Plain3, PlainType3, Dim3D, Octant, oct, onum, 3);

macro_rules! listed2 {
    ($n:ident, $st:ty) => {
        pub type $n = MortonIndex2D<$st>;
        impl Ix for $n {
            const KIND: u8 = STATIC;
            const W: usize = 16;
            const CAP: usize = LIMIT;
            common!(Quadrant, quad, qnum, $st);
            dim2!();
            fn from_grid(_g: [usize; 3], _d: usize, _o: usize) -> Result<Self, Error> {
                ma_unsupported("no grid construction for foreign storages")
            }
        }
        impl Vx for $n {
            vx!(Quadrant);
            fn zero(d: usize) -> Option<Self> {
                Self::try_from(&[Quadrant::Zero; 2 * LIMIT][..d]).ok()
            }
        }
    };
}
macro_rules! listed3 {
    ($n:ident, $st:ty) => {
        pub type $n = MortonIndex3D<$st>;
        impl Ix for $n {
            const KIND: u8 = STATIC;
            const W: usize = 16;
            const CAP: usize = LIMIT;
            common!(Octant, oct, onum, $st);
            dim3!();
            fn from_grid(_g: [usize; 3], _d: usize, _o: usize) -> Result<Self, Error> {
                ma_unsupported("no grid construction for foreign storages")
            }
        }
        impl Vx for $n {
            vx!(Octant);
            fn zero(d: usize) -> Option<Self> {
                Self::try_from(&[Octant::Zero; 2 * LIMIT][..d]).ok()
            }
        }
    };
}
listed2!(P2, Plain2);
listed3!(P3, Plain3);
listed2!(L2, Listed<Quadrant>);
listed3!(L3, Listed<Octant>);
