//! Entries of property C02.
use super::*;

pub fn c02<X: Ix>(p: usize) {
    let n = dd::<X>(p);
    let ks = syms::<X>("cell", n);
    let nk = sym_cell("new", 0, X::D);
    let x: X = from_nums(&ks);
    let e = pad::<X>(&ks);
    let ls = some_levels(e.len());
    let mut i = 0;
    while i < ls.len() {
        let l = ls[i];
        ma_note("set level", l);
        let mut f = e.clone();
        f[l] = nk;
        let mut y = x.clone();
        y.set(l, X::mk(nk));
        reads(&y, &f, "after a checked write depth and cells are the old ones except for the written cell");
        let mut z = x.clone();
        unsafe_set(&mut z, l, nk);
        same(&z, &y, "unchecked and checked write have the same effect");
        let r: X = from_nums(&f);
        same(&y, &r, "after a write the index equals the index built from the updated cells");
        i += 1;
    }
}
fn unsafe_set<X: Ix>(z: &mut X, l: usize, k: usize) {
    z.set_u(l, X::mk(k));
}
inst!(c02_set, c02, own_depths);
/// The level is abstract as well (types with a fixed number of bits).
pub fn c02_any<X: Ix>(p: usize) {
    let l: usize = ma_sym("level");
    let n = dd::<X>(p);
    let d = depth_of::<X>(n);
    let ks = syms::<X>("cell", n);
    let nk = sym_cell("new", 0, X::D);
    let x: X = from_nums(&ks);
    let e = pad::<X>(&ks);
    ma_assume(l < d);
    let mut y = x.clone();
    y.set(l, X::mk(nk));
    ma_check(y.dep() == d, "a write keeps the depth");
    ma_check(X::num(y.get(l)) == nk, "the written cell is read back");
    let mut j = 0;
    while j < d {
        ma_note("read level", j);
        let want = if j == l { nk } else { e[j] };
        ma_check(X::num(y.get_u(j)) == want, "a write changes exactly the cell it names");
        j += 1;
    }
}
fn top_depth<X: Ix>(_t: bool) -> (u64, u64, u64) {
    let c = if X::KIND == DYN { 9 } else { X::CAP as u64 };
    (c, c, 1)
}
inst!(c02_anylevel, c02_any, top_depth);
/// Levels past the range of 16-bit numbers.
fn c02_far<X: Vx>(_p: usize) {
    let mut ks = syms::<X>("cell", FAR.len());
    let mut x: X = huge(&ks);
    far_reads(&x, &ks, HUGE, "the other levels keep their cells");
    let nk = sym_cell("new", 0, X::D);
    let mut i = 0;
    while i < FAR.len() {
        x.set(FAR[i], X::mk(nk));
        ks[i] = nk;
        far_reads(&x, &ks, HUGE, "the other levels keep their cells");
        i += 1;
    }
}
inst_list!(c02_huge, c02_far, one_task, [d2: D2, d3: D3]);
