//! Entries of property C23.
use super::*;

pub fn c23<X: Ix>(_p: usize) {
    let x = X::default();
    let d = if X::KIND == FIXED { X::CAP } else { 0 };
    is(&x, &vec![0; d], "the default index has depth 0 or only zero cells");
}
inst!(c23_default, c23, once);
pub fn c23_zero_<X: Vx>(p: usize) {
    let d = dd::<X>(p);
    let x = some(X::zero(d), "a zeroed index that fits exists");
    let ks = vec![0; d];
    is(&x, &ks, "a zeroed index has the requested depth and only zero cells");
    same_hash(&x, &from_nums::<X>(&ks), "a zeroed index hashes like the one built from zero cells");
}
inst_v!(c23_zeroed, c23_zero_, all_depths);
pub fn c23_clone_<X: Ix>(p: usize) {
    let ks = syms::<X>("cell", dd::<X>(p));
    let nk = sym_cell("new", 0, X::D);
    let x: X = from_nums(&ks);
    let e = pad::<X>(&ks);
    let mut y = x.clone();
    same(&x, &y, "a clone equals its original");
    reads(&y, &e, "a clone has the cells of its original");
    let mut l = 0;
    while l < e.len() {
        y.set(l, X::mk(nk));
        l += 1;
    }
    reads(&x, &e, "changing a clone leaves the original unchanged");
    let mut z = some_default::<X>();
    z.clone_from(&x);
    same(&x, &z, "clone_from makes an equal index");
}
fn some_default<X: Ix>() -> X {
    X::default()
}
inst!(c23_clone, c23_clone_, own_depths);

/// Depths that need more memory than any machine has: no index may come back (the allocation fails),
/// also where overflow wraps.
#[cfg(target_pointer_width = "64")]
pub mod c23_huge {
    use super::*;
    fn huge(p: usize) -> usize {
        if p == 0 {
            let d = ma_sym::<usize>("depth");
            ma_assume(d > (1 << 43));
            d
        } else {
            let m = usize::MAX;
            let d = [m, m - 1, m - 2, m - 3, m / 2, m / 2 + 1, m / 2 + 9, m / 3, m / 3 + 1, m / 3 + 2, m / 3 + 9, m / 3 * 2 + 1, m / 3 * 2 + 9, m / 4 + 1, m / 4 + 9][p - 1];
            ma_note("depth", d);
            d
        }
    }
    pub fn d2(p: usize) {
        let d = huge(p);
        ma_expect_panic_begin();
        D2::zeroed(d);
        ma_expect_panic_end("no zeroed index is returned whose cells cannot fit in memory");
    }
    pub fn d3(p: usize) {
        let d = huge(p);
        ma_expect_panic_begin();
        D3::zeroed(d);
        ma_expect_panic_end("no zeroed index is returned whose cells cannot fit in memory");
    }
    pub mod range {
        pub fn d2(_t: bool) -> (u64, u64, u64) {
            (0, 15, 1)
        }
        pub fn d3(_t: bool) -> (u64, u64, u64) {
            (0, 15, 1)
        }
    }
}
/// Depths past the range of 16-bit numbers.
fn c23_far<X: Vx>(_p: usize) {
    let ks = syms::<X>("cell", FAR.len());
    let mut x: X = huge(&ks);
    let y = x.clone();
    same(&x, &y, "a clone equals its original");
    unsafe { x.set_u(65540, X::mk(0)) };
    far_reads(&y, &ks, HUGE, "changing an index leaves its clone unchanged");
}
inst_list!(c23_huge_clone, c23_far, one_task, [d2: D2, d3: D3]);
