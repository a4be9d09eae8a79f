//! Entries of property C06.
use super::*;

fn lens_for<X: Ix>(d: usize) -> Vec<usize> {
    let mut v = Vec::new();
    if X::KIND == DYN {
        let e: &[usize] = if d < 20 { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17] } else { &[0, 1, 2, 3, 5, 8] };
        v.extend_from_slice(e);
    } else {
        let m = X::CAP - d;
        let mut i = 0;
        while i <= m {
            if X::W <= 32 || i < 4 || i + 2 > m || i == m / 2 {
                v.push(i);
            }
            i += 1;
        }
    }
    v
}
pub fn c06<X: Vx>(p: usize) {
    let d = dd::<X>(p);
    let ks = syms::<X>("cell", d);
    let x: X = from_nums(&ks);
    let ls = lens_for::<X>(d);
    let more = syms::<X>("appended", ls[ls.len() - 1]);
    let mut i = 0;
    while i < ls.len() {
        let n = ls[i];
        ma_note("appended cells", n);
        let y = some(x.desc(&mks::<X>(&more[..n])), "a descendant that fits exists");
        let mut all = ks.clone();
        all.extend_from_slice(&more[..n]);
        reads(&y, &all, "the descendant has the own cells followed by the given ones");
        let r: X = from_nums(&all);
        same(&y, &r, "the descendant equals the index built from all cells");
        same_hash(&y, &r, "the descendant hashes like the index built from all cells");
        if n == 1 {
            let c = some(x.chi(X::mk(more[0])), "a child that fits exists");
            same(&c, &r, "the child equals the index with one more cell");
            reads(&c, &all, "the child has the own cells followed by the given one");
        }
        i += 1;
    }
    reads(&x, &ks, "deriving an index leaves the original unchanged");
}
inst_v!(c06_append, c06, all_depths);
/// Depths past the range of 16-bit numbers.
fn c06_far<X: Vx>(_p: usize) {
    let ks = syms::<X>("cell", FAR.len());
    let x: X = huge(&ks);
    let nk = syms::<X>("new", 2);
    let y = some(x.chi(X::mk(nk[0])), "a child of a dynamic index exists");
    far_reads(&y, &ks, HUGE + 1, "the descendant keeps the cells of the original");
    ma_check(X::num(y.get(HUGE)) == nk[0], "the descendant has the given cells at its end");
    let y = some(x.desc(&mks::<X>(&nk)), "a descendant of a dynamic index exists");
    far_reads(&y, &ks, HUGE + 2, "the descendant keeps the cells of the original");
    ma_check(X::num(y.get(HUGE)) == nk[0] && X::num(y.get(HUGE + 1)) == nk[1], "the descendant has the given cells at its end");
}
inst_list!(c06_huge, c06_far, one_task, [d2: D2, d3: D3]);
