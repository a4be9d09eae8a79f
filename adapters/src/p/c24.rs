//! Entries of property C24.
use super::*;

fn c24<X: Raw>(p: usize) {
    let b: X::B = ma_sym("bits");
    let x = X::raw(b, p);
    let mut ks = Vec::new();
    let mut l = 0;
    while l < p {
        let top = X::W - 1 - 3 * l;
        let k = (X::bit_at(b, top) as usize) << 2 | (X::bit_at(b, top - 1) as usize) << 1 | X::bit_at(b, top - 2) as usize;
        ks.push(k);
        l += 1;
    }
    reads(&x, &ks, "the octant at each level is the next three bits from the most significant bit down");
    let mut clean = true;
    let mut i = 0;
    while i < X::W - 3 * p {
        clean &= !X::bit_at(b, i);
        i += 1;
    }
    ma_assume(clean);
    let y: X = from_nums(&ks);
    same(&x, &y, "with zero bits past the last level the index equals the one built from the octants");
    same_hash(&x, &y, "with zero bits past the last level the index hashes like the one built from the octants");
}
fn raw_depths<X: Ix>(t: bool) -> (u64, u64, u64) {
    if X::KIND == FIXED {
        (X::CAP as u64, X::CAP as u64, 1)
    } else {
        (0, X::CAP as u64, 1)
    }
}
#[cfg(target_pointer_width = "64")]
inst_list!(c24_raw, c24, raw_depths, [f3x8: F3x8, f3x16: F3x16, f3x32: F3x32, f3x64: F3x64, f3x128: F3x128,
    s3x8: S3x8, s3x16: S3x16, s3x32: S3x32, s3x64: S3x64, s3x128: S3x128]);
#[cfg(target_pointer_width = "32")]
inst_list!(c24_raw, c24, raw_depths, [f3x8: F3x8, f3x16: F3x16, f3x32: F3x32, f3x64: F3x64,
    s3x8: S3x8, s3x16: S3x16, s3x32: S3x32, s3x64: S3x64, s3x128: S3x128]);
