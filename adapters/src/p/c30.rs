//! Property C30: operations depend on their arguments alone, and every type may be shared between threads.
//! The first half is decided by the query in engine/src/lint.rs; this module is the second half: it does not
//! type-check unless every type has the guarantees named here.
use super::*;
use std::panic::{RefUnwindSafe, UnwindSafe};

fn shareable<T: Send + Sync + Unpin + UnwindSafe + RefUnwindSafe>() {}
fn owned<T: Clone + 'static>() {}
fn by_value<T: Copy + 'static>() {}
fn an_error<T: std::error::Error + Send + Sync + 'static>() {}

pub mod c30_types {
use super::*;
macro_rules! witness {
    ($f:ident: $($t:ty),*) => {
        pub fn $f() {
            $(
                shareable::<$t>();
                owned::<$t>();
                shareable::<DisplayableMortonIndexSlice<'static, $t>>();
            )*
            ma_check(true, "index types are Send, Sync and unwind safe");
        }
    };
}
witness!(indices_2d: F2x8, F2x16, F2x32, F2x64, F2x128, S2x8, S2x16, S2x32, S2x64, S2x128, D2);
witness!(indices_3d: F3x8, F3x16, F3x32, F3x64, F3x128, S3x8, S3x16, S3x32, S3x64, S3x128, D3);
macro_rules! storages {
    ($($b:ty),*) => {
        pub fn storages() {
            $(
                shareable::<FixedDepthStorage2D<$b>>();
                by_value::<FixedDepthStorage2D<$b>>();
                shareable::<StaticStorage2D<$b>>();
                by_value::<StaticStorage2D<$b>>();
                shareable::<FixedDepthStorage3D<$b>>();
                by_value::<FixedDepthStorage3D<$b>>();
                shareable::<StaticStorage3D<$b>>();
                by_value::<StaticStorage3D<$b>>();
                by_value::<MortonIndex2D<FixedDepthStorage2D<$b>>>();
                by_value::<MortonIndex2D<StaticStorage2D<$b>>>();
                by_value::<MortonIndex3D<FixedDepthStorage3D<$b>>>();
                by_value::<MortonIndex3D<StaticStorage3D<$b>>>();
                shareable::<CellIter<'static, Dim2D, FixedDepthStorage2D<$b>>>();
                shareable::<CellIter<'static, Dim2D, StaticStorage2D<$b>>>();
                shareable::<CellIter<'static, Dim3D, FixedDepthStorage3D<$b>>>();
                shareable::<CellIter<'static, Dim3D, StaticStorage3D<$b>>>();
            )*
            shareable::<DynamicStorage2D>();
            shareable::<DynamicStorage3D>();
            owned::<DynamicStorage2D>();
            owned::<DynamicStorage3D>();
            shareable::<CellIter<'static, Dim2D, DynamicStorage2D>>();
            shareable::<CellIter<'static, Dim3D, DynamicStorage3D>>();
            ma_check(true, "storages and iterators are Send, Sync and unwind safe");
        }
    };
}
storages!(u8, u16, u32, u64, u128);
pub fn values() {
    shareable::<Quadrant>();
    by_value::<Quadrant>();
    shareable::<Octant>();
    by_value::<Octant>();
    shareable::<QuadrantOrdering>();
    shareable::<OctantOrdering>();
    shareable::<MortonIndexNaming>();
    shareable::<Error>();
    an_error::<Error>();
    ma_check(true, "cells, orderings, namings and errors are Send, Sync and unwind safe");
}
}
