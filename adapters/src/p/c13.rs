//! Entries of property C13.
use super::*;

pub fn c13<A: Ix, B: Ix<C = A::C>>(p: usize)
where
    B: From<A>,
{
    let n = dd::<A>(p);
    let ks = syms::<A>("cell", n);
    let a: A = from_nums(&ks);
    let e = pad::<A>(&ks);
    let b = B::from(a);
    let w = pad::<B>(&e);
    reads(&b, &w, "the converted index has the same depth and cells");
    let r: B = from_nums(&w);
    same(&b, &r, "the converted index equals the one built from the cells");
    same_hash(&b, &r, "the converted index hashes like the one built from the cells");
}
pub fn c13_try<A: Ix, B: Ix<C = A::C>>(p: usize)
where
    B: TryFrom<A, Error = Error>,
{
    let ks = syms::<A>("cell", p);
    let a: A = from_nums(&ks);
    let b = ok(B::try_from(a), "a dynamic index that fits is converted");
    let w = pad::<B>(&ks);
    reads(&b, &w, "the converted index has the same depth and cells");
    let r: B = from_nums(&w);
    same(&b, &r, "the converted index equals the one built from the cells");
    same_hash(&b, &r, "the converted index hashes like the one built from the cells");
}
fn src_depths<A: Ix, B>(t: bool) -> (u64, u64, u64) {
    own_depths::<A>(t)
}
fn dst_depths<A, B: Ix>(_t: bool) -> (u64, u64, u64) {
    (0, B::CAP as u64, 1)
}
conv!(c13_from, c13, src_depths, [
    f2w_s: F2w => S2w, f2w_d: F2w => D2, s2w_f: S2w => F2w, s2w_d: S2w => D2, f3w_s: F3w => S3w, f3w_d: F3w => D3, s3w_f: S3w => F3w, s3w_d: S3w => D3,
    f2x8_s: F2x8 => S2x8, f2x16_s: F2x16 => S2x16, f2x32_s: F2x32 => S2x32, f2x64_s: F2x64 => S2x64, f2x128_s: F2x128 => S2x128,
    f2x8_d: F2x8 => D2, f2x16_d: F2x16 => D2, f2x32_d: F2x32 => D2, f2x64_d: F2x64 => D2, f2x128_d: F2x128 => D2,
    s2x8_f: S2x8 => F2x8, s2x16_f: S2x16 => F2x16, s2x32_f: S2x32 => F2x32, s2x64_f: S2x64 => F2x64, s2x128_f: S2x128 => F2x128,
    s2x8_d: S2x8 => D2, s2x16_d: S2x16 => D2, s2x32_d: S2x32 => D2, s2x64_d: S2x64 => D2, s2x128_d: S2x128 => D2,
    f3x8_s: F3x8 => S3x8, f3x16_s: F3x16 => S3x16, f3x32_s: F3x32 => S3x32, f3x64_s: F3x64 => S3x64,
    f3x8_d: F3x8 => D3, f3x16_d: F3x16 => D3, f3x32_d: F3x32 => D3, f3x64_d: F3x64 => D3,
    s3x8_f: S3x8 => F3x8, s3x16_f: S3x16 => F3x16, s3x32_f: S3x32 => F3x32, s3x64_f: S3x64 => F3x64,
    s3x8_d: S3x8 => D3, s3x16_d: S3x16 => D3, s3x32_d: S3x32 => D3, s3x64_d: S3x64 => D3, s3x128_d: S3x128 => D3
]);
#[cfg(target_pointer_width = "64")]
conv!(c13_wide, c13, src_depths, [
    f3x128_s: F3x128 => S3x128, f3x128_d: F3x128 => D3, s3x128_f: S3x128 => F3x128
]);
conv_dyn!(c13_tryfrom, c13_try, dst_depths);
