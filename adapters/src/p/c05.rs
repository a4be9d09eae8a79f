//! Entries of property C05.
use super::*;

pub fn c05<X: Vx>(p: usize) {
    let d = dd::<X>(p);
    let ks = syms::<X>("cell", d);
    let x: X = from_nums(&ks);
    let ls = some_levels(d);
    let mut i = 0;
    while i < ls.len() {
        let g = d - ls[i];
        ma_note("generations", g);
        let a = some(x.anc(NonZeroUsize::new(g).unwrap()), "an ancestor within the depth exists");
        reads(&a, &ks[..d - g], "the ancestor has the first cells");
        let b: X = from_nums(&ks[..d - g]);
        same(&a, &b, "the ancestor equals the index built from the first cells");
        same_hash(&a, &b, "the ancestor hashes like the index built from the first cells");
        let w = some(x.wd(d - g), "with_depth within the depth exists");
        same(&w, &b, "with_depth equals the index built from the first cells");
        if g == 1 {
            same(&some(x.par(), "the parent of a non-root index exists"), &b, "the parent is the ancestor one generation up");
        }
        i += 1;
    }
    same(&some(x.wd(d), "with_depth within the depth exists"), &x, "with_depth at the own depth is the index itself");
    if d == 0 {
        none(x.par(), "the root has no parent");
    }
    reads(&x, &ks, "deriving an index leaves the original unchanged");
}
inst_v!(c05_prefix, c05, all_depths);
pub fn c05_none_<X: Vx>(p: usize) {
    let d = dd::<X>(p);
    let g: usize = ma_sym("generations");
    let ks = syms::<X>("cell", d);
    let x: X = from_nums(&ks);
    ma_assume(g > d);
    none(x.anc(NonZeroUsize::new(g).unwrap()), "no ancestor above the root");
    none(x.wd(g), "with_depth beyond the depth is none");
}
inst_v!(c05_none, c05_none_, all_depths);
/// Depths past the range of 16-bit numbers.
fn c05_far<X: Vx>(p: usize) {
    let ks = syms::<X>("cell", FAR.len());
    let x: X = huge(&ks);
    let gs = [1, 2, 5, 6, 65535, 65536, 65537, HUGE - 3];
    let a = some(x.anc(NonZeroUsize::new(gs[p]).unwrap()), "an ancestor within the depth exists");
    far_reads(&a, &ks, HUGE - gs[p], "the ancestor has the first cells");
    if p == 0 {
        same(&some(x.par(), "the parent of a non-root index exists"), &a, "the parent is the ancestor one generation up");
        same(&some(x.wd(HUGE - 1), "with_depth within the depth exists"), &a, "with_depth equals the index built from the first cells");
    }
    none(x.anc(NonZeroUsize::new(HUGE + 1).unwrap()), "no ancestor above the root");
}
fn gens<X>(t: bool) -> (u64, u64, u64) {
    (0, 7, 1)
}
inst_list!(c05_huge, c05_far, gens, [d2: D2, d3: D3]);
