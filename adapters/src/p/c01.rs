//! Entries of property C01.
use super::*;

pub fn c01<X: Ix>(p: usize) {
    let n = dd::<X>(p);
    let ks = syms::<X>("cell", n);
    let x: X = from_nums(&ks);
    let y: X = ok(from_arr(&ks), "construction from a cell array that fits succeeds");
    let e = pad::<X>(&ks);
    ma_check(x.dep() == e.len(), "depth is the number of cells");
    ma_check(y.dep() == e.len(), "depth is the number of cells");
    let mut l = 0;
    while l < e.len() {
        ma_note("level", l);
        ma_check(X::num(x.get(l)) == e[l], "checked read returns the cell given for the level");
        ma_check(X::num(x.get_u(l)) == e[l], "unchecked read returns the cell given for the level");
        ma_check(X::num(y.get_u(l)) == e[l], "read of an index built from an array returns the cell given");
        l += 1;
    }
}
inst!(c01_read, c01, all_depths);
/// Depths past the range of 16-bit numbers.
fn c01_far<X: Vx>(_p: usize) {
    let ks = syms::<X>("cell", FAR.len());
    let x: X = from_nums(&huge_cells(&ks));
    far_reads(&x, &ks, HUGE, "unchecked read returns the cell given for the level");
    let mut i = 0;
    while i < FAR.len() {
        ma_note("level", FAR[i]);
        ma_check(X::num(x.get(FAR[i])) == ks[i], "checked read returns the cell given for the level");
        i += 1;
    }
}
inst_list!(c01_huge, c01_far, one_task, [d2: D2, d3: D3]);
