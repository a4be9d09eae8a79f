//! Entries of property C33: the entries of the other properties over storage and bit types from outside the crate.
use super::*;
use crate::ix::foreign::*;

/// Every depth, or for the bit type as wide as an integer a selection.
fn depths<X: Ix>(t: bool) -> (u64, u64, u64) {
    let s = if t {
        1
    } else if X::W == 64 {
        7
    } else if X::W > 16 && X::CAP > 12 {
        3
    } else {
        1
    };
    (X::CAP as u64 % s, X::CAP as u64, s)
}
fn own<X: Ix>(t: bool) -> (u64, u64, u64) {
    match X::KIND {
        FIXED => (X::CAP as u64, X::CAP as u64, 1),
        _ => depths::<X>(t),
    }
}
fn grids<X: Ix>(t: bool) -> (u64, u64, u64) {
    own::<X>(t)
}
fn pairs<X, Y: Ix>(t: bool) -> (u64, u64, u64) {
    depths::<Y>(t)
}
fn src<X: Ix, Y>(t: bool) -> (u64, u64, u64) {
    own::<X>(t)
}
fn bounded<X: Ix>(_t: bool) -> (u64, u64, u64) {
    (0, 0, 1)
}
#[cfg(target_pointer_width = "64")]
macro_rules! all {
    ($m:ident, $f:ident, $r:ident) => {
        inst_list!($m, $f, $r, [
            f2u24: F2u24, s2u24: S2u24, f3u24: F3u24, s3u24: S3u24, f2u40: F2u40, s2u40: S2u40, f3u40: F3u40, s3u40: S3u40,
            f2u64: F2u64, s2u64: S2u64, f3u64: F3u64, s3u64: S3u64, f2u96: F2u96, s2u96: S2u96, f3u96: F3u96, s3u96: S3u96,
            plain2: P2, plain3: P3, listed2: L2, listed3: L3
        ]);
    };
}
#[cfg(target_pointer_width = "32")]
macro_rules! all {
    ($m:ident, $f:ident, $r:ident) => {
        inst_list!($m, $f, $r, [
            f2u24: F2u24, s2u24: S2u24, f3u24: F3u24, s3u24: S3u24, f2u40: F2u40, s2u40: S2u40, f3u40: F3u40, s3u40: S3u40,
            f2u64: F2u64, s2u64: S2u64, f3u64: F3u64, s3u64: S3u64, f2u96: F2u96, s2u96: S2u96, s3u96: S3u96,
            plain2: P2, plain3: P3, listed2: L2, listed3: L3
        ]);
    };
}
#[cfg(target_pointer_width = "64")]
macro_rules! bit_types {
    ($m:ident, $f:ident, $r:ident) => {
        inst_list!($m, $f, $r, [
            f2u24: F2u24, s2u24: S2u24, f3u24: F3u24, s3u24: S3u24, f2u40: F2u40, s2u40: S2u40, f3u40: F3u40, s3u40: S3u40,
            f2u64: F2u64, s2u64: S2u64, f3u64: F3u64, s3u64: S3u64, f2u96: F2u96, s2u96: S2u96, f3u96: F3u96, s3u96: S3u96
        ]);
    };
}
#[cfg(target_pointer_width = "32")]
macro_rules! bit_types {
    ($m:ident, $f:ident, $r:ident) => {
        inst_list!($m, $f, $r, [
            f2u24: F2u24, s2u24: S2u24, f3u24: F3u24, s3u24: S3u24, f2u40: F2u40, s2u40: S2u40, f3u40: F3u40, s3u40: S3u40,
            f2u64: F2u64, s2u64: S2u64, f3u64: F3u64, s3u64: S3u64, s2u96: S2u96, s3u96: S3u96
        ]);
    };
}
macro_rules! variable {
    ($m:ident, $f:ident, $r:ident) => {
        inst_list!($m, $f, $r, [
            s2u24: S2u24, s3u24: S3u24, s2u40: S2u40, s3u40: S3u40, s2u64: S2u64, s3u64: S3u64, s2u96: S2u96, s3u96: S3u96, plain2: P2, plain3: P3, listed2: L2, listed3: L3
        ]);
    };
}
macro_rules! variable_bits {
    ($m:ident, $f:ident, $r:ident) => {
        inst_list!($m, $f, $r, [s2u24: S2u24, s3u24: S3u24, s2u40: S2u40, s3u40: S3u40, s2u64: S2u64, s3u64: S3u64, s2u96: S2u96, s3u96: S3u96]);
    };
}
use super::c01::c01;
all!(c33_read, c01, depths);
use super::c02::{c02, c02_any};
all!(c33_set, c02, own);
use super::c03::{c03_der_, c03_derset_, c03_get_, c03_ok_, c03_set_};
all!(c33_badget, c03_get_, depths);
all!(c33_badset, c03_set_, depths);
all!(c33_level, c03_ok_, depths);
variable!(c33_prefix, c03_derset_, depths);
variable!(c33_derived, c03_der_, depths);
use super::c04::{c04_cap_, c04_desc_, c04_fits_, c04_gf, c04_grid_, c04_slice_, c04_zero_};
all!(c33_capacity, c04_cap_, bounded);
all!(c33_slice, c04_slice_, bounded);
all!(c33_fits, c04_fits_, depths);
variable_bits!(c33_zeroed, c04_zero_, bounded);
variable_bits!(c33_grid, c04_grid_, bounded);
variable_bits!(c33_gridfits, c04_gf, depths);
variable!(c33_descendant, c04_desc_, depths);
use super::c05::{c05, c05_none_};
variable!(c33_ancestor, c05, depths);
variable!(c33_noancestor, c05_none_, depths);
use super::c06::c06;
variable!(c33_append, c06, depths);
use super::c07::{c07, c07_prod_, c07_var_};
all!(c33_equal, c07, own);
all!(c33_produced, c07_prod_, depths);
variable_bits!(c33_varied, c07_var_, depths);
use super::c08::c08;
all!(c33_order, c08, own);
use super::c09::c09;
all!(c33_togrid, c09, own);
use super::c10::c10;
bit_types!(c33_fromgrid, c10, grids);
use super::c13::{c13, c13_try};
conv!(c33_convert, c13, src, [
    f2u24_s: F2u24 => S2u24, f2u24_d: F2u24 => D2, s2u24_f: S2u24 => F2u24, s2u24_d: S2u24 => D2,
    f3u24_s: F3u24 => S3u24, f3u24_d: F3u24 => D3, s3u24_f: S3u24 => F3u24, s3u24_d: S3u24 => D3,
    f2u40_s: F2u40 => S2u40, f2u40_d: F2u40 => D2, s2u40_f: S2u40 => F2u40, s2u40_d: S2u40 => D2,
    f3u40_s: F3u40 => S3u40, f3u40_d: F3u40 => D3, s3u40_f: S3u40 => F3u40, s3u40_d: S3u40 => D3,
    f2u64_s: F2u64 => S2u64, f2u64_d: F2u64 => D2, s2u64_f: S2u64 => F2u64, s2u64_d: S2u64 => D2,
    f3u64_s: F3u64 => S3u64, f3u64_d: F3u64 => D3, s3u64_f: S3u64 => F3u64, s3u64_d: S3u64 => D3,
    f2u96_s: F2u96 => S2u96, f2u96_d: F2u96 => D2, s2u96_f: S2u96 => F2u96, s2u96_d: S2u96 => D2,
    s3u96_d: S3u96 => D3
]);
#[cfg(target_pointer_width = "64")]
conv!(c33_convert3, c13, src, [f3u96_s: F3u96 => S3u96, f3u96_d: F3u96 => D3, s3u96_f: S3u96 => F3u96]);
conv!(c33_tryconvert, c13_try, pairs, [
    f2u24: D2 => F2u24, s2u24: D2 => S2u24, f3u24: D3 => F3u24, s3u24: D3 => S3u24,
    f2u40: D2 => F2u40, s2u40: D2 => S2u40, f3u40: D3 => F3u40, s3u40: D3 => S3u40,
    f2u64: D2 => F2u64, s2u64: D2 => S2u64, f2u96: D2 => F2u96, s2u96: D2 => S2u96, f3u64: D3 => F3u64, s3u64: D3 => S3u64, s3u96: D3 => S3u96
]);
#[cfg(target_pointer_width = "64")]
conv!(c33_tryconvert3, c13_try, pairs, [f3u96: D3 => F3u96]);
use super::c14::{c14, c14_gridf_};
all!(c33_name, c14, own);
all!(c33_gridname, c14_gridf_, own);
use super::c17::c17;
all!(c33_reverse, c17, own);
use super::c18::{c18, c18_drive_};
all!(c33_cells, c18, depths);
all!(c33_drive, c18_drive_, own);
use super::c23::{c23, c23_clone_, c23_zero_};
all!(c33_default, c23, bounded);
variable_bits!(c33_zerocells, c23_zero_, depths);
all!(c33_clone, c23_clone_, own);
/// An index type from outside the crate, which takes part through its required functions only: it keeps its cells in a list,
/// last level first.
macro_rules! own_index {
    ($m:ident, $dim:ty, $cell:ty, $mk:ident, $num:ident, $order:ty, $grid:ty, $k:expr) => {
        pub mod $m {
            use super::*;
            #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
            pub struct Own(Vec<u8>);
            const LIMIT: usize = 11;
            impl MortonIndex for Own {
                type Dimension = $dim;
                fn get_cell_at_level(&self, l: usize) -> $cell {
                    ma_check(l < self.0.len(), "a provided function asks for cells that exist only");
                    $mk(self.0[self.0.len() - 1 - l] as usize)
                }
                unsafe fn get_cell_at_level_unchecked(&self, l: usize) -> $cell {
                    self.get_cell_at_level(l)
                }
                fn set_cell_at_level(&mut self, l: usize, c: $cell) {
                    let n = self.0.len();
                    ma_check(l < n, "a provided function sets cells that exist only");
                    self.0[n - 1 - l] = $num(c) as u8;
                }
                unsafe fn set_cell_at_level_unchecked(&mut self, l: usize, c: $cell) {
                    self.set_cell_at_level(l, c)
                }
                fn depth(&self) -> usize {
                    self.0.len()
                }
                fn to_string(&self, _n: MortonIndexNaming) -> String {
                    String::from("own")
                }
                fn to_grid_index(&self, _o: $order) -> $grid {
                    ma_unsupported("the grid index of a foreign index type")
                }
            }
            impl VariableDepthMortonIndex for Own {
                fn ancestor(&self, g: NonZeroUsize) -> Option<Self> {
                    if g.get() > self.0.len() {
                        return None;
                    }
                    Some(Own(self.0[g.get()..].to_vec()))
                }
                fn descendant(&self, c: &[$cell]) -> Option<Self> {
                    if self.0.len() + c.len() > LIMIT {
                        return None;
                    }
                    let mut v = Vec::new();
                    let mut i = c.len();
                    while i > 0 {
                        i -= 1;
                        v.push($num(c[i]) as u8);
                    }
                    v.extend_from_slice(&self.0);
                    Some(Own(v))
                }
            }
            fn of(ks: &[usize]) -> Own {
                let mut v = Vec::new();
                let mut i = ks.len();
                while i > 0 {
                    i -= 1;
                    v.push(ks[i] as u8);
                }
                Own(v)
            }
            fn same(x: &Own, ks: &[usize], rule: &'static str) {
                ma_check(x.0.len() == ks.len(), rule);
                let w = of(ks);
                ma_same_bytes(&x.0, &w.0, rule);
            }
            pub fn derived(d: usize) {
                let mut ks = Vec::new();
                while ks.len() < d {
                    ks.push(sym_cell("cell", ks.len(), $k));
                }
                let x = of(&ks);
                let mut r = ks.clone();
                r.reverse();
                same(&x.inverted(), &r, "inversion reverses the cells of a foreign index");
                match x.parent() {
                    Some(p) => {
                        ma_check(d > 0, "the root of a foreign index type has no parent");
                        same(&p, &ks[..d - 1], "the parent of a foreign index is its first ancestor");
                    }
                    None => ma_check(d == 0, "a foreign index below the root has a parent"),
                }
                let mut n = 0;
                while n <= d + 2 {
                    match x.with_depth(n) {
                        Some(p) => {
                            ma_check(n <= d, "a foreign index has no ancestor deeper than itself");
                            same(&p, &ks[..n], "the ancestor of a foreign index at a depth is its prefix");
                        }
                        None => ma_check(n > d, "a foreign index has an ancestor at every depth to its own"),
                    }
                    n += 1;
                }
                let far: usize = ma_sym("depth");
                ma_assume(far > d);
                ma_check(x.with_depth(far).is_none(), "a foreign index has no ancestor deeper than itself");
                let k = sym_cell("new cell", 0, $k);
                let mut l = ks.clone();
                l.push(k);
                match x.child($mk(k)) {
                    Some(c) => {
                        ma_check(d < LIMIT, "a foreign index of full depth has no child");
                        same(&c, &l, "the child of a foreign index is its descendant by one cell");
                    }
                    None => ma_check(d == LIMIT, "a foreign index has a child unless it refuses one"),
                }
                same(&x, &ks, "deriving from a foreign index leaves it alone");
                let two = [x.clone(), x];
                let mut a = String::new();
                ma_check(write!(a, "{}", make_displayable(&two, MortonIndexNaming::CellConcatenation)).is_ok(), "formatting succeeds");
                ma_same_bytes(a.as_bytes(), b"[own, own]", "foreign indices are displayed by their names");
            }
            pub mod range {
                pub fn derived(_t: bool) -> (u64, u64, u64) {
                    (0, 11, 1)
                }
            }
        }
    };
}
own_index!(c33_own2, Dim2D, Quadrant, quad, qnum, QuadrantOrdering, Vector2<usize>, 2);
own_index!(c33_own3, Dim3D, Octant, oct, onum, OctantOrdering, Vector3<usize>, 3);
