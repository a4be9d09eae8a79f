//! Entries of property C31: storages used directly.  `X` is the index type over the storage `S`; only its
//! constants and cell numbering are used.
use super::*;

trait Sof<X: Ix>: Storage<Self::Dm> + Clone {
    type Dm: Dimension<Cell = X::C>;
    fn make(c: &[X::C]) -> Result<Self, Error>;
    fn make_arr<const N: usize>(c: [X::C; N]) -> Result<Self, Error>;
    fn walk(&self, n: usize) -> Vec<Option<X::C>>;
    fn top() -> Option<usize>;
    fn levels() -> usize;
    fn dims() -> usize;
}
trait Vof<X: Ix>: Sof<X> {
    fn up(&self, g: NonZeroUsize) -> Option<Self>;
    fn down(&self, c: &[X::C]) -> Option<Self>;
}
macro_rules! stor {
    ($x:ty, $s:ty, $d:ty, $c:ty) => {
        impl Sof<$x> for $s {
            type Dm = $d;
            fn make(c: &[$c]) -> Result<Self, Error> {
                Self::try_from(c)
            }
            fn make_arr<const N: usize>(c: [$c; N]) -> Result<Self, Error> {
                Self::try_from(c)
            }
            fn walk(&self, n: usize) -> Vec<Option<$c>> {
                let mut it = self.into_iter();
                let mut v = Vec::with_capacity(n);
                let mut i = 0;
                while i < n {
                    v.push(it.next());
                    i += 1;
                }
                v
            }
            fn top() -> Option<usize> {
                <$s as Storage<$d>>::max_depth()
            }
            fn levels() -> usize {
                <<$s as Storage<$d>>::StorageType as StorageType>::MAX_LEVELS
            }
            fn dims() -> usize {
                <<$s as Storage<$d>>::StorageType as StorageType>::DIMENSIONALITY
            }
        }
    };
}
macro_rules! vstor {
    ($x:ty, $s:ty, $d:ty, $c:ty) => {
        stor!($x, $s, $d, $c);
        impl Vof<$x> for $s {
            fn up(&self, g: NonZeroUsize) -> Option<Self> {
                VariableDepthStorage::<$d>::ancestor(self, g)
            }
            fn down(&self, c: &[$c]) -> Option<Self> {
                VariableDepthStorage::<$d>::descendant(self, c)
            }
        }
    };
}
macro_rules! stores {
    ($($f2:ident $s2:ident $f3:ident $s3:ident $b:ty),*) => { $(
        stor!($f2, FixedDepthStorage2D<$b>, Dim2D, Quadrant);
        vstor!($s2, StaticStorage2D<$b>, Dim2D, Quadrant);
        stor!($f3, FixedDepthStorage3D<$b>, Dim3D, Octant);
        vstor!($s3, StaticStorage3D<$b>, Dim3D, Octant);
    )* };
}
stores!(F2x8 S2x8 F3x8 S3x8 u8, F2x16 S2x16 F3x16 S3x16 u16, F2x32 S2x32 F3x32 S3x32 u32, F2x64 S2x64 F3x64 S3x64 u64);
stor!(F2x128, FixedDepthStorage2D<u128>, Dim2D, Quadrant);
vstor!(S2x128, StaticStorage2D<u128>, Dim2D, Quadrant);
#[cfg(target_pointer_width = "64")]
stor!(F3x128, FixedDepthStorage3D<u128>, Dim3D, Octant);
vstor!(S3x128, StaticStorage3D<u128>, Dim3D, Octant);
vstor!(D2, DynamicStorage2D, Dim2D, Quadrant);
vstor!(D3, DynamicStorage3D, Dim3D, Octant);

fn of<X: Ix, S: Sof<X>>(ks: &[usize]) -> S {
    ok(S::make(&mks::<X>(ks)), "a storage built from a cell list that fits exists")
}
fn holds<X: Ix, S: Sof<X>>(s: &S, ks: &[usize], tag: &'static str) {
    ma_check(s.depth() == ks.len(), tag);
    let mut l = 0;
    while l < ks.len() {
        ma_note("level", l);
        ma_check(X::num(unsafe { s.get_cell_at_level_unchecked(l) }) == ks[l], tag);
        l += 1;
    }
}
fn like<X: Ix, S: Sof<X>>(s: &S, ks: &[usize], tag: &'static str) {
    holds::<X, S>(s, ks, tag);
    let r: S = of::<X, S>(ks);
    ma_check(*s == r, tag);
    ma_check(s.cmp(&r) == Ordering::Equal, tag);
    ma_same_bytes(&hash_of(s), &hash_of(&r), tag);
}
/// Thinner than for the index types, over which the same code is covered at every depth.
fn depth_at<X: Ix>(p: usize) -> usize {
    match X::KIND {
        DYN => p,
        _ if X::CAP <= 16 => p,
        _ => [0, 1, 2, X::CAP / 3, X::CAP / 2, X::CAP - 2, X::CAP - 1, X::CAP][p],
    }
}
fn dr<X: Ix, S>(t: bool) -> (u64, u64, u64) {
    match X::KIND {
        DYN => (0, if t { 24 } else { 10 }, 1),
        _ if X::CAP <= 16 => (0, X::CAP as u64, 1),
        _ => (0, 7, 1),
    }
}
fn base<X: Ix, S: Sof<X>>(p: usize) {
    match S::top() {
        Some(n) => ma_check(X::KIND != DYN && n == X::CAP && S::levels() == n, "the storage reports bits over dimension as its capacity"),
        None => ma_check(X::KIND == DYN, "only dynamic storage has no capacity"),
    }
    ma_check(S::dims() == X::D, "the storage reports its dimension");
    let n = depth_at::<X>(p);
    let given = syms::<X>("cell", n);
    let nk = sym_cell("new", 0, X::D);
    let s: S = of::<X, S>(&given);
    let ks = pad::<X>(&given);
    like::<X, S>(&s, &ks, "a storage holds the cells it is built from");
    let mut t = s.clone();
    like::<X, S>(&t, &ks, "a copied storage holds the same cells");
    let w = s.walk(ks.len() + 2);
    let mut l = 0;
    while l < ks.len() {
        ma_note("level", l);
        ma_check(w[l].map(X::num) == Some(ks[l]), "iterating over a storage gives its cells in order");
        unsafe { t.set_cell_at_level_unchecked(l, X::mk(nk)) };
        let mut e = ks.clone();
        e[l] = nk;
        like::<X, S>(&t, &e, "a write changes that level of the storage only");
        unsafe { t.set_cell_at_level_unchecked(l, X::mk(ks[l])) };
        l += 1;
        if l > 3 && l + 3 < ks.len() {
            l = ks.len() - 3;
        }
    }
    ma_check(w[ks.len()].is_none() && w[ks.len() + 1].is_none(), "iterating over a storage ends after its last cell");
    like::<X, S>(&t, &ks, "writing a cell back restores the storage");
    holds::<X, S>(&s, &ks, "changing a copy leaves the storage as it was");
    if n == 0 {
        let z = S::default();
        like::<X, S>(&z, &pad::<X>(&[]), "the default storage is the root");
    }
}
fn cmp<X: Ix, S: Sof<X>>(p: usize) {
    let d = if X::KIND == FIXED { X::CAP } else { depth_at::<X>(p) };
    let m = if X::KIND == FIXED { d } else if X::KIND == DYN { d + 5 } else { X::CAP };
    let (a, b) = two::<X>(m);
    let s: S = of::<X, S>(&a[..d]);
    let es = [0, d, d + 1, m];
    let mut i = 0;
    while i < 4 {
        if es[i] <= m && (X::KIND != FIXED || i == 1) {
            let e = es[i];
            ma_note("other depth", e);
            let t: S = of::<X, S>(&b[..e]);
            let mut lt = d < e;
            let mut eq = d == e;
            let mut j = if d < e { d } else { e };
            while j > 0 {
                j -= 1;
                let q = a[j] == b[j];
                lt = (a[j] < b[j]) | (q & lt);
                eq = q & eq;
            }
            let c = s.cmp(&t);
            ma_check((c == Ordering::Less) == lt, "storages compare in tree order");
            ma_check((c == Ordering::Equal) == eq, "storages compare in tree order");
            ma_check((t.cmp(&s) == Ordering::Greater) == lt, "storages compare in tree order");
            ma_check((s == t) == eq && (s != t) == !eq, "storages are equal when their cells are");
            ma_check(s.partial_cmp(&t) == Some(c), "partial_cmp agrees with cmp");
            ma_check((s < t) == lt && (s >= t) == !lt, "the comparison operators agree with cmp");
        }
        i += 1;
    }
}
fn var<X: Ix, S: Vof<X>>(p: usize) {
    let d = depth_at::<X>(p);
    let m = if X::KIND == DYN { d + 6 } else { X::CAP };
    let ks = syms::<X>("cell", m);
    let s: S = of::<X, S>(&ks[..d]);
    let mut g = 1;
    while g <= d {
        ma_note("generations", g);
        let a = some(s.up(NonZeroUsize::new(g).unwrap()), "an ancestor within the depth exists");
        like::<X, S>(&a, &ks[..d - g], "the ancestor holds the first cells");
        g += 1;
        if g > 4 && g + 3 < d {
            g = d - 3;
        }
    }
    none(s.up(NonZeroUsize::new(d + 1).unwrap()), "no ancestor above the root");
    let mut n = 0;
    while n <= m - d {
        ma_note("appended", n);
        let z = some(s.down(&mks::<X>(&ks[d..d + n])), "a descendant that fits exists");
        like::<X, S>(&z, &ks[..d + n], "the descendant holds its own cells followed by the given ones");
        n += 1;
        if n > 4 && n + 2 < m - d {
            n = m - d - 1;
        }
    }
    if X::KIND == STATIC {
        let mut more = mks::<X>(&ks[d..]);
        more.push(X::mk(0));
        none(s.down(&more), "a descendant beyond the capacity is none");
    }
    holds::<X, S>(&s, &ks[..d], "deriving a storage leaves the original as it was");
}
fn too_many<X: Ix, S: Sof<X>>(_p: usize) {
    let mut n = 1;
    while n < 4 {
        match S::make(&mks::<X>(&vec![0; X::CAP + n])) {
            Err(Error::DepthLimitedExceeded { max_depth }) => ma_check(max_depth == X::CAP, "the error names the capacity of the storage"),
            _ => ma_check(false, "a storage is not built from more cells than fit"),
        }
        n += 1;
    }
}
fn arrays<X: Ix, S: Sof<X>>(_p: usize) {
    fn one<X: Ix, S: Sof<X>, const N: usize>() {
        ma_note("array length", N);
        let ks = syms::<X>("cell", N);
        let mut a = [X::mk(0); N];
        let mut i = 0;
        while i < N {
            a[i] = X::mk(ks[i]);
            i += 1;
        }
        let r = S::make_arr::<N>(a);
        if N > X::CAP {
            match r {
                Err(Error::DepthLimitedExceeded { max_depth }) => ma_check(max_depth == X::CAP, "the error names the capacity of the storage"),
                _ => ma_check(false, "a storage is not built from more cells than fit"),
            }
        } else {
            like::<X, S>(&ok(r, "a storage built from a cell array that fits exists"), &pad::<X>(&ks), "a storage holds the cells it is built from");
        }
    }
    macro_rules! lens { ($($n:literal)*) => { $(one::<X, S, $n>();)* }; }
    lens!(0 1 2 3 4 5 6 8 9 10 11 16 17 21 22 32 33 42 43 64 65);
}
fn once_<X, S>(_t: bool) -> (u64, u64, u64) {
    (0, 0, 1)
}
macro_rules! all_stores {
    ($m:ident, $f:ident, $r:ident) => {
        conv!($m, $f, $r, [
            f2x8: F2x8 => FixedDepthStorage2D<u8>, f2x16: F2x16 => FixedDepthStorage2D<u16>, f2x32: F2x32 => FixedDepthStorage2D<u32>,
            f2x64: F2x64 => FixedDepthStorage2D<u64>, f2x128: F2x128 => FixedDepthStorage2D<u128>,
            f3x8: F3x8 => FixedDepthStorage3D<u8>, f3x16: F3x16 => FixedDepthStorage3D<u16>, f3x32: F3x32 => FixedDepthStorage3D<u32>,
            f3x64: F3x64 => FixedDepthStorage3D<u64>,
            s2x8: S2x8 => StaticStorage2D<u8>, s2x16: S2x16 => StaticStorage2D<u16>, s2x32: S2x32 => StaticStorage2D<u32>,
            s2x64: S2x64 => StaticStorage2D<u64>, s2x128: S2x128 => StaticStorage2D<u128>,
            s3x8: S3x8 => StaticStorage3D<u8>, s3x16: S3x16 => StaticStorage3D<u16>, s3x32: S3x32 => StaticStorage3D<u32>,
            s3x64: S3x64 => StaticStorage3D<u64>, s3x128: S3x128 => StaticStorage3D<u128>,
            d2: D2 => DynamicStorage2D, d3: D3 => DynamicStorage3D
        ]);
    };
}
all_stores!(c31_cells, base, dr);
all_stores!(c31_arrays, arrays, once_);
macro_rules! var_stores {
    ($m:ident, $f:ident, $r:ident) => {
        conv!($m, $f, $r, [
            s2x8: S2x8 => StaticStorage2D<u8>, s2x16: S2x16 => StaticStorage2D<u16>, s2x32: S2x32 => StaticStorage2D<u32>,
            s2x64: S2x64 => StaticStorage2D<u64>, s2x128: S2x128 => StaticStorage2D<u128>,
            s3x8: S3x8 => StaticStorage3D<u8>, s3x16: S3x16 => StaticStorage3D<u16>, s3x32: S3x32 => StaticStorage3D<u32>,
            s3x64: S3x64 => StaticStorage3D<u64>, s3x128: S3x128 => StaticStorage3D<u128>,
            d2: D2 => DynamicStorage2D, d3: D3 => DynamicStorage3D
        ]);
    };
}
var_stores!(c31_order, cmp, dr);
var_stores!(c31_family, var, dr);
macro_rules! fix_stores {
    ($m:ident, $f:ident, $r:ident) => {
        conv!($m, $f, $r, [
            f2x8: F2x8 => FixedDepthStorage2D<u8>, f2x16: F2x16 => FixedDepthStorage2D<u16>, f2x32: F2x32 => FixedDepthStorage2D<u32>,
            f2x64: F2x64 => FixedDepthStorage2D<u64>, f2x128: F2x128 => FixedDepthStorage2D<u128>,
            f3x8: F3x8 => FixedDepthStorage3D<u8>, f3x16: F3x16 => FixedDepthStorage3D<u16>, f3x32: F3x32 => FixedDepthStorage3D<u32>,
            f3x64: F3x64 => FixedDepthStorage3D<u64>
        ]);
    };
}
fix_stores!(c31_forder, cmp, once_);
fix_stores!(c31_fmany, too_many, once_);
conv!(c31_many, too_many, once_, [
    s2x8: S2x8 => StaticStorage2D<u8>, s2x16: S2x16 => StaticStorage2D<u16>, s2x32: S2x32 => StaticStorage2D<u32>,
    s2x64: S2x64 => StaticStorage2D<u64>, s2x128: S2x128 => StaticStorage2D<u128>,
    s3x8: S3x8 => StaticStorage3D<u8>, s3x16: S3x16 => StaticStorage3D<u16>, s3x32: S3x32 => StaticStorage3D<u32>,
    s3x64: S3x64 => StaticStorage3D<u64>, s3x128: S3x128 => StaticStorage3D<u128>
]);
#[cfg(target_pointer_width = "64")]
conv!(c31_wide, base, dr, [f3x128: F3x128 => FixedDepthStorage3D<u128>]);

/// `zeroed` of the dynamic storages.
pub mod c31_zeroed {
    use super::*;
    pub fn d2(p: usize) {
        like::<D2, DynamicStorage2D>(&DynamicStorage2D::zeroed(p), &vec![0; p], "a zeroed storage has zero cells at every level");
    }
    pub fn d3(p: usize) {
        like::<D3, DynamicStorage3D>(&DynamicStorage3D::zeroed(p), &vec![0; p], "a zeroed storage has zero cells at every level");
    }
    pub mod range {
        pub fn d2(_t: bool) -> (u64, u64, u64) {
            (0, 40, 1)
        }
        pub fn d3(_t: bool) -> (u64, u64, u64) {
            (0, 40, 1)
        }
    }
}

/// The cell accessors of the storage types, on bits of the caller's.
fn on_bits<T: StorageType, B: Bits + Copy + PartialEq>(levels: usize, dim: usize, num: fn(<T::Dimension as Dimension>::Cell) -> usize, mk: fn(usize) -> <T::Dimension as Dimension>::Cell) {
    let bits: B = ma_sym("bits");
    let nk = sym_cell("new", 0, dim);
    let mut l = 0;
    while l < levels {
        ma_note("level", l);
        let mut b = bits;
        unsafe { T::set_cell_at_level_unchecked(&mut b, l, mk(nk)) };
        let mut i = 0;
        while i < levels {
            let was = num(unsafe { T::get_cell_at_level_unchecked(&bits, i) });
            let is = num(unsafe { T::get_cell_at_level_unchecked(&b, i) });
            ma_check(is == if i == l { nk } else { was }, "a write through a storage type changes the bits of that level only");
            i += 1;
        }
        let old = unsafe { T::get_cell_at_level_unchecked(&bits, l) };
        unsafe { T::set_cell_at_level_unchecked(&mut b, l, old) };
        ma_check(b == bits, "writing a cell back restores the bits");
        l += 1;
    }
}
pub mod c31_types {
    use super::*;
    macro_rules! both {
        ($($f2:ident $f3:ident $s2:ident $s3:ident $d2:ident $d3:ident $b:ty),*) => { $(
            pub fn $f2() { on_bits::<FixedDepthStorage<Dim2D, $b>, $b>(<$b>::BITS as usize / 2, 2, qnum, quad) }
            pub fn $f3() { on_bits::<FixedDepthStorage<Dim3D, $b>, $b>(<$b>::BITS as usize / 3, 3, onum, oct) }
            pub fn $s2() { on_bits::<StaticStorage<Dim2D, $b>, $b>(<$b>::BITS as usize / 2, 2, qnum, quad) }
            pub fn $s3() { on_bits::<StaticStorage<Dim3D, $b>, $b>(<$b>::BITS as usize / 3, 3, onum, oct) }
            pub fn $d2() { on_bits::<DynamicStorage<Dim2D>, $b>(<$b>::BITS as usize / 2, 2, qnum, quad) }
            pub fn $d3() { on_bits::<DynamicStorage<Dim3D>, $b>(<$b>::BITS as usize / 3, 3, onum, oct) }
        )* };
    }
    both!(f2x8 f3x8 s2x8 s3x8 d2x8 d3x8 u8, f2x16 f3x16 s2x16 s3x16 d2x16 d3x16 u16, f2x32 f3x32 s2x32 s3x32 d2x32 d3x32 u32, f2x64 f3x64 s2x64 s3x64 d2x64 d3x64 u64);
}
