//! Entries of property C07.
use super::*;

fn all_eq(a: &[usize], b: &[usize]) -> bool {
    let mut r = a.len() == b.len();
    let mut i = 0;
    while i < a.len() && i < b.len() {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}
pub fn c07<X: Ix>(p: usize) {
    let d = dd::<X>(p);
    let ps = partners::<X>(d, false);
    let (a, b) = two_deep::<X>(d, ps[ps.len() - 1]);
    let x: X = from_nums(&a[..d]);
    let mut i = 0;
    while i < ps.len() {
        let e = ps[i];
        ma_note("other depth", e);
        let y: X = from_nums(&b[..e]);
        let want = all_eq(&a[..d], &b[..e]);
        ma_check((x == y) == want, "two indices are equal exactly when depth and cells are");
        ma_check((y == x) == want, "two indices are equal exactly when depth and cells are");
        ma_check((x != y) == !want, "two indices are equal exactly when depth and cells are");
        i += 1;
    }
    let x2: X = from_nums(&a[..d]);
    same_hash(&x, &x2, "equal indices hash alike");
}
inst!(c07_pairs, c07, own_depths);
/// Whatever produced it, an index equals and hashes like the one built from its cells.
fn canon<X: Ix>(x: &X, ks: &[usize], how: &'static str) {
    let y: X = from_nums(ks);
    same(x, &y, how);
    same_hash(x, &y, how);
    same_hash_in_list(x, &y, how);
}
pub fn c07_prod_<X: Ix>(p: usize) {
    let n = dd::<X>(p);
    let ks = syms::<X>("cell", n);
    let nk = sym_cell("new", 0, X::D);
    let x: X = from_nums(&ks);
    let e = pad::<X>(&ks);
    let d = e.len();
    canon(&ok::<X>(from_arr(&ks), "fits"), &ks, "an index built from an array equals and hashes like the one built from the same cells");
    // every cell overwritten, last level first
    let mut y = x.clone();
    let mut l = d;
    while l > 0 {
        l -= 1;
        y.set(l, X::mk(if l % 2 == 0 { nk } else { e[l] }));
    }
    let mut f = e.clone();
    let mut l = 0;
    while l < d {
        if l % 2 == 0 {
            f[l] = nk;
        }
        l += 1;
    }
    canon(&y, &f, "an index produced by writes equals and hashes like the one built from its cells");
    let mut r = Vec::new();
    let mut l = 0;
    while l < d {
        r.push(e[d - 1 - l]);
        l += 1;
    }
    canon(&x.inv(), &r, "an inverted index equals and hashes like the one built from its cells");
    canon(&x.clone(), &e, "a clone equals and hashes like the original");
}
inst!(c07_produced, c07_prod_, all_depths);
pub fn c07_var_<X: Vx>(p: usize) {
    let n = dd::<X>(p);
    let ks = syms::<X>("cell", n);
    let x: X = from_nums(&ks);
    canon(&some(X::zero(n), "fits"), &vec![0; n], "a zeroed index equals and hashes like the one built from zero cells");
    let mut z = some(X::zero(n), "fits");
    let mut l = 0;
    while l < n {
        z.set(l, X::mk(ks[l]));
        l += 1;
    }
    canon(&z, &ks, "a zeroed index filled by writes equals and hashes like the one built from its cells");
    if n > 0 {
        let y = some(x.par(), "fits");
        canon(&y, &ks[..n - 1], "a parent equals and hashes like the index built from its cells");
        let w = some(y.chi(X::mk(ks[n - 1])), "fits");
        canon(&w, &ks, "a child equals and hashes like the index built from its cells");
        let h = some(x.anc(NonZeroUsize::new((n + 1) / 2).unwrap()), "fits");
        let k = n - (n + 1) / 2;
        canon(&h, &ks[..k], "an ancestor equals and hashes like the index built from its cells");
        canon(&some(h.desc(&mks::<X>(&ks[k..])), "fits"), &ks, "a descendant equals and hashes like the index built from its cells");
        canon(&some(x.wd(k), "fits"), &ks[..k], "with_depth equals and hashes like the index built from its cells");
    }
    if X::KIND != DYN || n <= usize::BITS as usize / 2 {
        let g = [ma_sym("x"), ma_sym("y"), ma_sym("z")];
        let r = ok(X::from_grid(g, n, 0), "fits");
        canon(&r, &cells_of_grid::<X>(g, n, 0), "an index built from a grid index equals and hashes like the one built from its cells");
    }
}
inst_v!(c07_varied, c07_var_, all_depths);
/// Depths past the range of 16-bit numbers.
fn c07_far<X: Vx>(_p: usize) {
    let (a, b) = two::<X>(FAR.len());
    let x: X = huge(&a);
    let y: X = huge(&b);
    let mut eq = true;
    let mut i = 0;
    while i < FAR.len() {
        eq = eq & (a[i] == b[i]);
        i += 1;
    }
    ma_check((x == y) == eq, "indices are equal exactly when depth and cells are");
    let z = some(X::zero(HUGE - 65536), "a dynamic index of any depth exists");
    ma_check(!(x == z), "indices are equal exactly when depth and cells are");
}
inst_list!(c07_huge, c07_far, one_task, [d2: D2, d3: D3]);
