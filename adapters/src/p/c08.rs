//! Entries of property C08.
use super::*;

fn order(a: &[usize], b: &[usize]) -> (bool, bool) {
    // (less, greater), decided from the last level up
    let mut lt = a.len() < b.len();
    let mut gt = a.len() > b.len();
    let mut i = if a.len() < b.len() { a.len() } else { b.len() };
    while i > 0 {
        i -= 1;
        let l = a[i] < b[i];
        let g = a[i] > b[i];
        let e = a[i] == b[i];
        lt = l | (e & lt);
        gt = g | (e & gt);
    }
    (lt, gt)
}
pub fn c08<X: Ix>(p: usize) {
    let d = dd::<X>(p);
    let ps = partners::<X>(d, false);
    let (a, b) = two_deep::<X>(d, ps[ps.len() - 1]);
    let x: X = from_nums(&a[..d]);
    let mut i = 0;
    while i < ps.len() {
        let e = ps[i];
        ma_note("other depth", e);
        let y: X = from_nums(&b[..e]);
        let (lt, gt) = order(&a[..d], &b[..e]);
        let c = x.cmp(&y);
        ma_check((c == Ordering::Less) == lt, "cmp is the lexicographic order of the cells");
        ma_check((c == Ordering::Greater) == gt, "cmp is the lexicographic order of the cells");
        let r = y.cmp(&x);
        ma_check((r == Ordering::Less) == gt, "cmp is the lexicographic order of the cells");
        ma_check((r == Ordering::Greater) == lt, "cmp is the lexicographic order of the cells");
        ma_check(x.partial_cmp(&y) == Some(c), "partial_cmp agrees with cmp");
        ma_check((c == Ordering::Equal) == (x == y), "comparison agrees with equality");
        ma_check((x < y) == lt, "the comparison operators agree with cmp");
        ma_check((x <= y) == !gt, "the comparison operators agree with cmp");
        ma_check((x > y) == gt, "the comparison operators agree with cmp");
        ma_check((x >= y) == !lt, "the comparison operators agree with cmp");
        if d + e <= 16 || e == d || i + 1 == ps.len() {
            let hi = x.clone().max(y.clone());
            let lo = x.clone().min(y.clone());
            ma_check((hi == x) == !lt && (hi == y) == !gt, "max and min agree with cmp");
            ma_check((lo == x) == !gt && (lo == y) == !lt, "max and min agree with cmp");
            if d + e <= 16 {
                ma_check(x.clone().clamp(lo.clone(), hi.clone()) == x, "clamp agrees with cmp");
                ma_check(x.clone().clamp(hi.clone(), hi.clone()) == hi, "clamp agrees with cmp");
                ma_check(y.clone().clamp(lo.clone(), lo.clone()) == lo, "clamp agrees with cmp");
            }
        }
        i += 1;
    }
}
inst!(c08_order, c08, own_depths);
/// Depths past the range of 16-bit numbers.
fn c08_far<X: Vx>(_p: usize) {
    let (a, b) = two::<X>(5);
    let mut x = some(X::zero(HUGE), "a dynamic index of any depth exists");
    let y: X = from_nums(&b);
    let mut i = 0;
    while i < 5 {
        unsafe { x.set_u(i, X::mk(a[i])) };
        i += 1;
    }
    let (lt, gt) = order(&cat(&a, &[0]), &b);
    let c = x.cmp(&y);
    ma_check((c == Ordering::Less) == lt, "cmp is the lexicographic order of the cells");
    ma_check((c == Ordering::Greater) == gt, "cmp is the lexicographic order of the cells");
    ma_check((y.cmp(&x) == Ordering::Less) == gt, "cmp is the lexicographic order of the cells");
}
fn cat(a: &[usize], b: &[usize]) -> Vec<usize> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v
}
inst_list!(c08_huge, c08_far, one_task, [d2: D2, d3: D3]);
