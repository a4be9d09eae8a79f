//! Entries of property C03.
use super::*;

pub fn c03_get_<X: Ix>(p: usize) {
    let l: usize = ma_sym("level");
    let ks = syms::<X>("cell", dd::<X>(p));
    let x: X = from_nums(&ks);
    ma_assume(l >= depth_of::<X>(ks.len()));
    ma_expect_panic_begin();
    let c = x.get(l);
    ma_expect_panic_end("a checked read at or past the depth returns normally")
}
inst!(c03_get, c03_get_, all_depths);
pub fn c03_set_<X: Ix>(p: usize) {
    let l: usize = ma_sym("level");
    let ks = syms::<X>("cell", dd::<X>(p));
    let nk = sym_cell("new", 0, X::D);
    let mut x: X = from_nums(&ks);
    ma_assume(l >= depth_of::<X>(ks.len()));
    ma_keep(&x, "a rejected write leaves the index as it was");
    ma_expect_panic_begin();
    x.set(l, X::mk(nk));
    ma_expect_panic_end("a checked write at or past the depth returns normally")
}
inst!(c03_set, c03_set_, all_depths);
pub fn c03_ok_<X: Ix>(p: usize) {
    let ks = syms::<X>("cell", dd::<X>(p));
    let nk = sym_cell("new", 0, X::D);
    let mut x: X = from_nums(&ks);
    let d = depth_of::<X>(ks.len());
    let mut l = 0;
    while l < d {
        ma_note("level", l);
        let c = x.get(l);
        x.set(l, X::mk(nk));
        l += 1;
    }
}
inst!(c03_ok, c03_ok_, all_depths);
/// Depths produced by other operations than construction.
pub fn c03_der_<X: Vx>(p: usize) {
    let l: usize = ma_sym("level");
    let how: usize = ma_sym("operation");
    let n = dd::<X>(p);
    let ks = syms::<X>("cell", n);
    let x: X = from_nums(&ks);
    ma_assume(l >= n);
    let y = match how {
        0 => x.inv(),
        1 => some(X::zero(n), "a zeroed index that fits exists"),
        2 if n > 0 => {
            let z: X = from_nums(&ks[..n - 1]);
            some(z.chi(X::mk(ks[n - 1])), "a child that fits exists")
        }
        3 => {
            if X::KIND != DYN && n == X::CAP {
                ma_stop()
            }
            let z = some(x.chi(X::mk(0)), "a child that fits exists");
            some(z.par(), "a parent exists")
        }
        4 => x.clone(),
        _ => ma_stop(),
    };
    ma_expect_panic_begin();
    let c = y.get(l);
    ma_expect_panic_end("a checked read at or past the depth returns normally")
}
/// The same for a write to an index that an operation produced.
pub fn c03_derset_<X: Vx>(p: usize) {
    let l: usize = ma_sym("level");
    let n = dd::<X>(p);
    let ks = syms::<X>("cell", n);
    let nk = sym_cell("new", 0, X::D);
    let x: X = from_nums(&ks);
    let m = n / 2;
    let mut y = some(x.wd(m), "a prefix exists");
    ma_assume(l >= m);
    ma_keep(&y, "a rejected write leaves the index as it was");
    ma_keep(&x, "a rejected write leaves other indices as they were");
    ma_expect_panic_begin();
    y.set(l, X::mk(nk));
    ma_expect_panic_end("a checked write at or past the depth returns normally")
}
inst_v!(c03_prefix, c03_derset_, all_depths);
inst_v!(c03_derived, c03_der_, all_depths);
/// Levels past the range of 16-bit numbers, and those that a narrower level would alias with them.
fn c03_far<X: Vx>(p: usize) {
    let ks = syms::<X>("cell", FAR.len());
    let mut x: X = huge(&ks);
    #[cfg(target_pointer_width = "64")]
    let l = [HUGE, HUGE + 1, HUGE + 2, 65536 * 2, 65536 * 3 + 4, 1 << 31, (1 << 32) + 3, usize::MAX][p % 8];
    #[cfg(target_pointer_width = "32")]
    let l = [HUGE, HUGE + 1, HUGE + 2, 65536 * 2, 65536 * 3 + 4, 1 << 31, (1 << 31) + 3, usize::MAX][p % 8];
    ma_note("level", l);
    ma_expect_panic_begin();
    if p < 8 {
        x.get(l);
    } else {
        x.set(l, X::mk(0));
    }
    ma_expect_panic_end("a checked access at or past the depth returns normally")
}
fn c03_far_ok<X: Vx>(_p: usize) {
    let ks = syms::<X>("cell", FAR.len());
    let mut x: X = huge(&ks);
    let mut i = 0;
    while i < FAR.len() {
        ma_note("level", FAR[i]);
        let c = x.get(FAR[i]);
        x.set(FAR[i], c);
        i += 1;
    }
}
fn sixteen<X>(_t: bool) -> (u64, u64, u64) {
    (0, 15, 1)
}
inst_list!(c03_huge, c03_far, sixteen, [d2: D2, d3: D3]);
inst_list!(c03_huge_ok, c03_far_ok, one_task, [d2: D2, d3: D3]);
