//! Entries of property C29: every operation on an index gives what its cells demand, whatever produced the index.
use super::*;

/// `a`, `b`: cell families allocated together, so that comparisons stay small.
struct Env<'a> {
    a: &'a [usize],
    b: &'a [usize],
    nk: usize,
}
fn with(ks: &[usize], l: usize, k: usize) -> Vec<usize> {
    let mut v = ks.to_vec();
    v[l] = k;
    v
}
fn rev(ks: &[usize]) -> Vec<usize> {
    let mut v = Vec::with_capacity(ks.len());
    let mut l = ks.len();
    while l > 0 {
        l -= 1;
        v.push(ks[l]);
    }
    v
}
fn cat(a: &[usize], b: &[usize]) -> Vec<usize> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v
}
/// (less, equal)
fn order(a: &[usize], b: &[usize]) -> (bool, bool) {
    let mut lt = a.len() < b.len();
    let mut eq = a.len() == b.len();
    let mut i = if a.len() < b.len() { a.len() } else { b.len() };
    while i > 0 {
        i -= 1;
        let e = a[i] == b[i];
        lt = (a[i] < b[i]) | (e & lt);
        eq = e & eq;
    }
    (lt, eq)
}
fn grids<X: Ix>(y: &X, ks: &[usize], o: usize) {
    let g = y.grid(o);
    let e = grid_of::<X>(ks, o);
    ma_check(g[0] == e[0] && g[1] == e[1] && g[2] == e[2], "the grid index is the same, whatever happened before");
}
fn names<X: Ix>(y: &X, ks: &[usize]) {
    let d = ks.len();
    let mut n = Vec::with_capacity(d);
    let mut l = 0;
    while l < d {
        n.push(b'0' + ks[l] as u8);
        l += 1;
    }
    ma_same_bytes(y.name(MortonIndexNaming::CellConcatenation).as_bytes(), &n, "the name is the same, whatever happened before");
}
/// Operations of every index type on `y`, whose cells are `ks`.
fn after<X: Ix>(y: &X, ks: &[usize], v: &Env) {
    let d = ks.len();
    reads(y, ks, "an index reads back its cells, whatever produced it");
    let ls = [0, d / 2, d.wrapping_sub(1)];
    let mut i = 0;
    while i < 3 {
        if ls[i] < d && (i == 0 || ls[i] != ls[i - 1]) {
            let mut z = y.clone();
            z.set(ls[i], X::mk(v.nk));
            reads(&z, &with(ks, ls[i], v.nk), "a write gives the same cells, whatever produced the index");
            same_hash(&z, &from_nums::<X>(&with(ks, ls[i], v.nk)), "a write gives the same index, whatever produced the index");
            reads(y, ks, "changing a copy leaves the original as it was");
        }
        i += 1;
    }
    reads(&y.inv(), &rev(ks), "inversion gives the same cells, whatever produced the index");
    let m = if X::KIND == FIXED || (X::KIND == STATIC && d == X::CAP) || v.b.len() <= d { d } else { d + 1 };
    let w: X = from_nums(&v.b[..m]);
    let (lt, eq) = order(ks, &v.b[..m]);
    ma_check((y.cmp(&w) == Ordering::Less) == lt, "comparison gives the same result, whatever produced the index");
    ma_check((w.cmp(y) == Ordering::Greater) == lt, "comparison gives the same result, whatever produced the index");
    if m > d {
        let w: X = from_nums(&v.b[..d]);
        let (lt, eq) = order(ks, &v.b[..d]);
        ma_check((y.cmp(&w) == Ordering::Less) == lt, "comparison gives the same result, whatever produced the index");
        ma_check((*y == w) == eq, "equality gives the same result, whatever produced the index");
    } else {
        ma_check((*y == w) == eq, "equality gives the same result, whatever produced the index");
    }
    let w: X = from_nums(&v.b[..d]);
    let bs = &v.b[..d];
    if d <= usize::BITS as usize {
        // asked in turn of this index and of another one, under one ordering and another
        grids(&w, bs, 0);
        grids(y, ks, 0);
        grids(y, ks, X::ORDERS - 1);
        grids(&w, bs, X::ORDERS - 1);
    }
    names(y, ks);
    names(&w, bs);
    let t = y.collect_all();
    ma_check(t.len() == d, "iteration gives the same cells, whatever produced the index");
    let mut l = 0;
    while l < d && l < t.len() {
        ma_check(X::num(t[l]) == ks[l], "iteration gives the same cells, whatever produced the index");
        l += 1;
    }
}
/// Operations of variable-depth types on top.
fn after_v<X: Vx>(y: &X, ks: &[usize], v: &Env) {
    after(y, ks, v);
    let d = ks.len();
    let gs = [1, d / 2, d];
    let mut i = 0;
    while i < 3 {
        let g = gs[i];
        if g > 0 && g <= d && (i == 0 || g != gs[i - 1]) {
            let z = some(y.anc(NonZeroUsize::new(g).unwrap()), "an ancestor exists, whatever produced the index");
            reads(&z, &ks[..d - g], "an ancestor has the same cells, whatever produced the index");
            same_hash(&z, &from_nums::<X>(&ks[..d - g]), "an ancestor is the same index, whatever produced the index");
            // and down again along other cells
            let n = if g < 3 { g } else { 3 };
            let z2 = some(z.desc(&mks::<X>(&v.b[..n])), "a descendant that fits exists");
            reads(&z2, &cat(&ks[..d - g], &v.b[..n]), "a descendant of an ancestor has the cells given for it");
        }
        i += 1;
    }
    none(y.anc(NonZeroUsize::new(d + 1).unwrap()), "no ancestor above the root, whatever produced the index");
    let mut n = 1;
    while n < 6 {
        if X::KIND == DYN || d + n <= X::CAP {
            let z = some(y.desc(&mks::<X>(&v.b[..n])), "a descendant that fits exists");
            reads(&z, &cat(ks, &v.b[..n]), "a descendant has the same cells, whatever produced the index");
            same_hash(&z, &from_nums::<X>(&cat(ks, &v.b[..n])), "a descendant is the same index, whatever produced the index");
        }
        n += 4;
    }
    if d > 0 {
        let z = some(y.wd(d - 1), "a prefix exists");
        reads(&z, &ks[..d - 1], "with_depth gives the same cells, whatever produced the index");
    }
    reads(y, ks, "deriving an index leaves the original as it was");
}
fn deep<X: Ix>(p: usize) -> usize {
    if p >= 100 {
        return p - 100;
    }
    match X::KIND {
        FIXED => X::CAP,
        DYN => [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 23, 24, 33][p],
        _ if X::CAP <= 8 => p,
        _ => [0, 1, 2, 3, X::CAP / 2 - 1, X::CAP / 2, X::CAP - 2, X::CAP - 1, X::CAP][p],
    }
}
fn seq_depths<X: Ix>(t: bool) -> (u64, u64, u64) {
    match X::KIND {
        FIXED => (0, 0, 1),
        DYN => if t { (100, 133, 1) } else { (0, 14, 1) },
        _ if t => (100, 100 + X::CAP as u64, 1),
        _ if X::CAP <= 8 => (0, X::CAP as u64, 1),
        _ => (0, 8, 1),
    }
}
fn env<X: Ix>(d: usize) -> (Vec<usize>, Vec<usize>) {
    let m = if X::KIND == FIXED {
        X::CAP
    } else if X::KIND == STATIC && d + 6 > X::CAP {
        X::CAP
    } else {
        d + 6
    };
    let (a, b) = two::<X>(if m < 6 { 6 } else { m });
    (a, if m < b.len() { b[..if m < 5 { 5 } else { m }].to_vec() } else { b })
}
fn any<X: Ix>(p: usize) {
    let d = deep::<X>(p);
    let (a, b) = env::<X>(d);
    let m = if X::KIND == DYN || d + 1 <= X::CAP { d + 1 } else { d };
    let b = b[..m].to_vec();
    let v = Env { a: &a, b: &b, nk: sym_cell("new", 0, X::D) };
    let ks = &a[..d];
    ma_note("produced by", 0);
    after(&ok::<X>(from_arr(ks), "fits"), ks, &v);
    ma_note("produced by", 1);
    after(&from_nums::<X>(&rev(ks)).inv(), ks, &v);
    ma_note("produced by", 2);
    let mut y: X = from_nums(&b[..d]);
    let mut l = d;
    while l > 0 {
        l -= 1;
        y.set(l, X::mk(ks[l]));
    }
    after(&y, ks, &v);
    ma_note("produced by", 3);
    let x: X = from_nums(ks);
    let mut y: X = from_nums(&b);
    y.clone_from(&x);
    after(&y, ks, &v);
    let mut y = x.clone();
    let mut l = 0;
    while l < d {
        y.set(l, X::mk(v.nk));
        l += 1;
    }
    reads(&x, ks, "changing a copy leaves the original as it was");
    if d <= usize::BITS as usize && (X::KIND != DYN || d <= usize::BITS as usize / 2) {
        ma_note("produced by", 4);
        after(&ok(X::from_grid(grid_of::<X>(ks, 0), d, 0), "fits"), ks, &v);
    }
}
inst!(c29_any, any, seq_depths);
fn var<X: Vx>(p: usize) {
    let d = deep::<X>(p);
    let (a, b) = env::<X>(d);
    let v = Env { a: &a, b: &b, nk: sym_cell("new", 0, X::D) };
    let ks = &a[..d];
    let room = if X::KIND == DYN { 6 } else { X::CAP - d };
    let more = [1, 2, 3, 4, 5];
    let mut i = 0;
    while i < 5 {
        if more[i] <= room && (i == 0 || i == 1 || i == 4) {
            ma_note("produced by", 10 + i);
            let x: X = from_nums(&a[..d + more[i]]);
            let y = if i == 0 { x.par() } else if i == 1 { x.wd(d) } else { x.anc(NonZeroUsize::new(more[i]).unwrap()) };
            let mut y = some(y, "fits");
            after_v(&y, ks, &v);
            if d > 0 {
                y.set(d - 1, X::mk(v.nk));
                reads(&x, &a[..d + more[i]], "changing an ancestor leaves the index it came from as it was");
            }
        }
        i += 1;
    }
    let cuts = [0, d / 2, d.wrapping_sub(1)];
    let mut i = 0;
    while i < 3 {
        if cuts[i] < d && (i == 0 || cuts[i] != cuts[i - 1]) {
            ma_note("produced by", 20 + i);
            let x: X = from_nums(&ks[..cuts[i]]);
            let mut y = some(x.desc(&mks::<X>(&ks[cuts[i]..])), "fits");
            after_v(&y, ks, &v);
            y.set(0, X::mk(v.nk));
            reads(&x, &ks[..cuts[i]], "changing a descendant leaves the index it came from as it was");
            // down, up and down again
            let y = some(some(y.anc(NonZeroUsize::new(d).unwrap()), "fits").desc(&mks::<X>(ks)), "fits");
            after_v(&y, ks, &v);
        }
        i += 1;
    }
    ma_note("produced by", 30);
    let mut z = some(X::zero(d), "fits");
    let mut l = d;
    while l > 0 {
        l -= 1;
        z.set(l, X::mk(ks[l]));
    }
    after_v(&z, ks, &v);
    if d == 0 {
        after_v(&X::default(), ks, &v);
    }
}
inst_v!(c29_varied, var, seq_depths);
/// What a conversion produced.
fn conv_any<A: Ix, B: Ix<C = A::C>>(p: usize)
where
    B: From<A>,
{
    let n = deep::<A>(p);
    let d = depth_of::<B>(n);
    let (a, b) = env::<B>(d);
    let v = Env { a: &a, b: &b[..d], nk: sym_cell("new", 0, A::D) };
    let x: A = from_nums(&a[..n]);
    let y = B::from(x);
    after(&y, &pad::<B>(&a[..n]), &v);
    let mut z: A = from_nums(&b[..n]);
    z.clone_from(&from_nums::<A>(&rev(&a[..n])));
    let y = B::from(z.inv());
    after(&y, &pad::<B>(&a[..n]), &v);
}
fn conv_v<A: Ix, B: Vx<C = A::C>>(p: usize)
where
    B: From<A>,
{
    let n = deep::<A>(p);
    let (a, b) = env::<B>(n);
    let v = Env { a: &a, b: &b, nk: sym_cell("new", 0, A::D) };
    let x: A = from_nums(&a[..n]);
    after_v(&B::from(x), &a[..n], &v);
}
fn conv_try<A: Vx, B: Ix<C = A::C>>(p: usize)
where
    B: TryFrom<A, Error = Error>,
{
    let n = deep::<B>(p);
    let d = depth_of::<B>(n);
    let (a, b) = env::<A>(d);
    let v = Env { a: &a, b: &b[..d], nk: sym_cell("new", 0, A::D) };
    let x: A = from_nums(&a[..n]);
    after(&ok(B::try_from(x), "a dynamic index that fits is converted"), &pad::<B>(&a[..n]), &v);
    // the dynamic index itself came from deeper or shallower ones
    let x: A = from_nums(&a[..n + 5]);
    let x = some(x.anc(NonZeroUsize::new(5).unwrap()), "fits");
    after(&ok(B::try_from(x), "a dynamic index that fits is converted"), &pad::<B>(&a[..n]), &v);
    let x: A = from_nums(&a[..n / 2]);
    let x = some(x.desc(&mks::<A>(&a[n / 2..n])), "fits");
    after(&ok(B::try_from(x), "a dynamic index that fits is converted"), &pad::<B>(&a[..n]), &v);
}
fn src_d<A: Ix, B>(t: bool) -> (u64, u64, u64) {
    seq_depths::<A>(t)
}
fn dst_d<A, B: Ix>(t: bool) -> (u64, u64, u64) {
    seq_depths::<B>(t)
}
conv!(c29_conv, conv_any, src_d, [
    s2x8_f: S2x8 => F2x8, s2x16_f: S2x16 => F2x16, s2x32_f: S2x32 => F2x32, s2x64_f: S2x64 => F2x64, s2x128_f: S2x128 => F2x128,
    s3x8_f: S3x8 => F3x8, s3x16_f: S3x16 => F3x16, s3x32_f: S3x32 => F3x32, s3x64_f: S3x64 => F3x64
]);
conv!(c29_convv, conv_v, src_d, [
    f2x8_s: F2x8 => S2x8, f2x16_s: F2x16 => S2x16, f2x32_s: F2x32 => S2x32, f2x64_s: F2x64 => S2x64, f2x128_s: F2x128 => S2x128,
    f2x8_d: F2x8 => D2, f2x16_d: F2x16 => D2, f2x32_d: F2x32 => D2,
    s2x8_d: S2x8 => D2, s2x16_d: S2x16 => D2, s2x32_d: S2x32 => D2, s2x64_d: S2x64 => D2, s2x128_d: S2x128 => D2,
    f3x8_s: F3x8 => S3x8, f3x16_s: F3x16 => S3x16, f3x32_s: F3x32 => S3x32, f3x64_s: F3x64 => S3x64,
    f3x8_d: F3x8 => D3, f3x16_d: F3x16 => D3, f3x32_d: F3x32 => D3, f3x64_d: F3x64 => D3,
    s3x8_d: S3x8 => D3, s3x16_d: S3x16 => D3, s3x32_d: S3x32 => D3, s3x64_d: S3x64 => D3, s3x128_d: S3x128 => D3
]);
#[cfg(target_pointer_width = "64")]
conv!(c29_wide, conv_any, src_d, [s3x128_f: S3x128 => F3x128]);
#[cfg(target_pointer_width = "64")]
conv!(c29_widev, conv_v, src_d, [f3x128_s: F3x128 => S3x128, f3x128_d: F3x128 => D3]);
conv_dyn!(c29_try, conv_try, dst_d);

/// Operations on indices of other types came before.
fn one<X: Ix>(i: usize) {
    ma_note("type", i);
    let d = if X::KIND == DYN { 7 } else { X::CAP };
    let d = if X::KIND == STATIC && d > 5 { 5 } else { d };
    let (a, b) = two::<X>(d);
    let v = Env { a: &a, b: &b, nk: sym_cell("new", 0, X::D) };
    let y: X = from_nums(&a);
    after(&y, &a, &v);
    if d <= usize::BITS as usize && (X::KIND != DYN || d <= usize::BITS as usize / 2) {
        let y = ok(X::from_grid(grid_of::<X>(&a, 0), d, 0), "fits");
        reads(&y, &a, "an index built from a grid index is the same, whatever happened before");
        let o = X::ORDERS - 1;
        let g = y.grid(o);
        let e = grid_of::<X>(&a, o);
        ma_check(g[0] == e[0] && g[1] == e[1] && g[2] == e[2], "the grid index is the same, whatever happened before");
    }
}
fn one_v<X: Vx>(i: usize) {
    ma_note("type", i);
    let d = if X::KIND == STATIC && X::CAP < 3 { 1 } else { 2 };
    let (a, b) = two::<X>(if X::KIND == STATIC && X::CAP < 8 { X::CAP } else { 8 });
    let v = Env { a: &a, b: &b, nk: sym_cell("new", 0, X::D) };
    let y = some(from_nums::<X>(&a).wd(d), "a prefix exists");
    let n = if X::KIND == DYN { 5 } else if X::CAP < 7 { X::CAP - d } else { 5 };
    let z = some(y.desc(&mks::<X>(&b[..n])), "a descendant that fits exists");
    reads(&z, &cat(&a[..d], &b[..n]), "a descendant has the same cells, whatever happened before");
    reads(&some(z.anc(NonZeroUsize::new(n).unwrap()), "an ancestor exists"), &a[..d], "an ancestor has the same cells, whatever happened before");
    if X::KIND == STATIC {
        none(y.desc(&mks::<X>(&vec![0; X::CAP - d + 1])), "too deep a descendant is rejected, whatever happened before");
        none(X::zero(X::CAP + 1), "too deep an index is rejected, whatever happened before");
        ma_check(X::build(&mks::<X>(&vec![0; X::CAP + 1])).is_err(), "too many cells are rejected, whatever happened before");
        ma_check(some(X::zero(X::CAP), "full depth is accepted").dep() == X::CAP, "full depth is accepted, whatever happened before");
    }
}
pub mod c29_mixed {
    use super::*;
    pub fn up() {
        one::<F2x8>(0); one::<F2x16>(1); one::<F2x32>(2); one::<F3x8>(3); one::<F3x16>(4); one::<F3x32>(5); one::<D2>(6); one::<D3>(7);
        one::<S2x8>(8); one::<S2x32>(9); one::<S3x8>(10); one::<S3x32>(11);
    }
    pub fn down() {
        one::<S3x128>(0); one::<S2x64>(1); one::<D3>(2); one::<D2>(3); one::<F3x64>(4); one::<F2x64>(5); one::<S3x16>(6); one::<S2x16>(7);
        one::<F3x16>(8); one::<F2x16>(9); one::<S2x8>(10); one::<F3x8>(11);
    }
    pub fn wide_first() {
        one::<F2x128>(0); one::<F3x8>(1); one::<F2x8>(2); one::<S3x64>(3); one::<S2x128>(4); one::<S3x8>(5); one::<D2>(6); one::<S2x8>(7);
    }
    pub fn varied_up() {
        one_v::<S2x8>(0); one_v::<S2x16>(1); one_v::<S3x16>(2); one_v::<S2x32>(3); one_v::<S3x32>(4); one_v::<S2x64>(5); one_v::<S3x64>(6); one_v::<S2x128>(7);
        one_v::<S3x128>(8); one_v::<D2>(9); one_v::<D3>(10); one_v::<S3x8>(11);
    }
    pub fn varied_down() {
        one_v::<D3>(0); one_v::<D2>(1); one_v::<S3x128>(2); one_v::<S2x128>(3); one_v::<S2x64>(4); one_v::<S3x64>(5); one_v::<S3x16>(6); one_v::<S2x16>(7);
        one_v::<S3x8>(8); one_v::<S2x8>(9);
    }
}
