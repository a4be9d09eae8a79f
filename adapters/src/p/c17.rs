//! Entries of property C17.
use super::*;

pub fn c17<X: Ix>(p: usize) {
    let ks = syms::<X>("cell", dd::<X>(p));
    let x: X = from_nums(&ks);
    let e = pad::<X>(&ks);
    let y = x.inv();
    let mut r = Vec::new();
    let mut l = e.len();
    while l > 0 {
        l -= 1;
        r.push(e[l]);
    }
    is(&y, &r, "inversion reverses the cells");
    reads(&x, &e, "inversion leaves the original unchanged");
}
inst!(c17_reverse, c17, own_depths);
/// Depths past the range of 16-bit numbers.
fn c17_far<X: Vx>(_p: usize) {
    let ks = syms::<X>("cell", FAR.len());
    let x: X = huge(&ks);
    let y = x.inv();
    far_reads(&x, &ks, HUGE, "inversion leaves the original unchanged");
    ma_check(y.dep() == HUGE, "inversion reverses the cells");
    let mut i = 0;
    while i < FAR.len() {
        ma_note("level", HUGE - 1 - FAR[i]);
        ma_check(X::num(y.get_u(HUGE - 1 - FAR[i])) == ks[i], "inversion reverses the cells");
        i += 1;
    }
    ma_check(X::num(y.get_u(2)) == 0 && X::num(y.get_u(HUGE / 2)) == 0 && X::num(y.get_u(HUGE - 3)) == 0, "inversion reverses the cells");
}
inst_list!(c17_huge, c17_far, one_task, [d2: D2, d3: D3]);
