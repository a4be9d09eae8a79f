//! Entries of property C04.
use super::*;

fn rejects<X: Ix, Y>(r: Result<Y, Error>, tag: &'static str) {
    match r {
        Ok(_) => ma_check(false, tag),
        Err(Error::DepthLimitedExceeded { max_depth }) => {
            ma_check(max_depth == X::CAP, "the error names the capacity of the type")
        }
        Err(_) => ma_check(false, "the rejection is the depth-limit error"),
    }
}
pub fn c04_cap_<X: Ix>(_p: usize) {
    match X::cap_reported() {
        Some(n) => ma_check(X::KIND != DYN && n == X::CAP, "max_depth reports storage bits over dimension"),
        None => ma_check(X::KIND == DYN, "only dynamic storage has no maximum depth"),
    }
}
inst!(c04_capacity, c04_cap_, once);
/// Cell lists of every length past the capacity (up to the length of the backing array).
const LONG: usize = 1 << 17;
pub fn c04_slice_<X: Ix>(_p: usize) {
    let n: usize = ma_sym("length");
    ma_assume(n > X::CAP && n <= LONG);
    let backing = [X::mk(0); LONG];
    let s = unsafe { std::slice::from_raw_parts(backing.as_ptr(), n) };
    rejects::<X, X>(X::build(s), "a cell list longer than the capacity is accepted");
}
fn sized<X: Ix>(_t: bool) -> (u64, u64, u64) {
    if X::KIND == DYN {
        (1, 0, 1)
    } else {
        (0, 0, 1)
    }
}
inst!(c04_slice, c04_slice_, sized);
/// The message of the rejection names the capacity.
fn names(t: &str, n: usize) -> bool {
    let (mut run, mut any, mut found) = (0usize, false, false);
    for b in t.bytes() {
        if b.is_ascii_digit() {
            run = run.wrapping_mul(10).wrapping_add((b - b'0') as usize);
            any = true;
        } else {
            found |= any && run == n;
            run = 0;
            any = false;
        }
    }
    found | (any && run == n)
}
pub fn c04_text_<X: Ix>(_p: usize) {
    let cs = [X::mk(0)].repeat(X::CAP + 1);
    match X::build(&cs) {
        Ok(_) => ma_check(false, "a cell list longer than the capacity is accepted"),
        Err(e) => {
            ma_check(names(&e.to_string(), X::CAP), "the message of the rejection names the capacity");
            ma_check(names(&format!("{:?}", e), X::CAP), "the debug text of the rejection names the capacity");
        }
    }
}
inst!(c04_message, c04_text_, sized);
pub fn c04_fits_<X: Ix>(p: usize) {
    let ks = syms::<X>("cell", dd::<X>(p));
    let a: X = from_nums(&ks);
    let b: X = ok(from_arr(&ks), "construction from a cell array that fits succeeds");
    ma_check(a.dep() == depth_of::<X>(ks.len()), "an accepted list is not truncated");
    ma_check(b.dep() == depth_of::<X>(ks.len()), "an accepted list is not truncated");
}
inst!(c04_fits, c04_fits_, all_depths);
fn one_arr<X: Ix, const N: usize>() {
    if N > X::CAP {
        let r: Result<X, Error> = X::build_arr::<N>([X::mk(0); N]);
        ma_note("array length", N);
        rejects::<X, X>(r, "a cell array longer than the capacity is accepted");
    }
}
fn c04_arr_<X: Ix>(_p: usize) {
    macro_rules! lens { ($($n:literal)*) => { $(one_arr::<X, $n>();)* }; }
    lens!(3 4 5 6 7 8 9 10 11 12 15 16 17 18 20 21 22 23 24 31 32 33 34 40 42 43 44 48 63 64 65 66 80 127 128 129
          130 192 254 255 256 257 258 260 261 264 272 277 288 298 300 320 384 511 512 513 514 520 768 1000 1024 4096
          65535 65536 65537 65538 65540 65568 65578 65600);
}
inst!(c04_array, c04_arr_, sized);
pub fn c04_zero_<X: Vx>(_p: usize) {
    let d: u8 = ma_sym("depth");
    let r = X::zero(d as usize);
    match r {
        None => ma_check(d as usize > X::CAP, "a zeroed index that fits is refused"),
        Some(x) => {
            ma_check(d as usize <= X::CAP, "a zeroed index deeper than the capacity is accepted");
            ma_check(x.dep() == d as usize, "the zeroed index has the requested depth");
        }
    }
}
inst_v!(c04_zeroed, c04_zero_, sized);
pub fn c04_grid_<X: Vx>(_p: usize) {
    let d: usize = ma_sym("depth");
    ma_assume(d > X::CAP);
    let g = [ma_sym("x"), ma_sym("y"), ma_sym("z")];
    let mut o = 0;
    while o < X::ORDERS {
        rejects::<X, X>(X::from_grid(g, d, o), "a grid index deeper than the capacity is accepted");
        o += 1;
    }
}
inst_v!(c04_grid, c04_grid_, sized);
fn c04_grid_fits_<X: Vx>(p: usize) {
    let r = X::from_grid([0, 0, 0], dd::<X>(p), 0);
    let x = ok(r, "a grid index that fits is refused");
    ma_check(x.dep() == dd::<X>(p), "an accepted grid index is not truncated");
}
fn gd<X: Ix>(p: usize) -> usize {
    p
}
pub fn c04_gf<X: Vx>(p: usize) {
    let x = ok(X::from_grid([0, 0, 0], p, 0), "a grid index that fits is refused");
    ma_check(x.dep() == p, "an accepted grid index is not truncated");
}
inst_v!(c04_gridfits, c04_gf, grid_depths);
pub fn c04_desc_<X: Vx>(p: usize) {
    let d = dd::<X>(p);
    let ks = syms::<X>("cell", d);
    let x: X = from_nums(&ks);
    let n: usize = ma_sym("length");
    if X::KIND == DYN {
        ma_stop()
    }
    ma_assume(n > X::CAP - d && n <= LONG);
    let backing = [X::mk(0); LONG];
    let s = unsafe { std::slice::from_raw_parts(backing.as_ptr(), n) };
    none(x.desc(s), "a descendant deeper than the capacity is produced");
    if d == X::CAP {
        none(x.chi(X::mk(0)), "a child deeper than the capacity is produced");
    }
}
fn sized_depths<X: Ix>(t: bool) -> (u64, u64, u64) {
    if X::KIND == DYN {
        (1, 0, 1)
    } else {
        (0, X::CAP as u64, 1)
    }
}
inst_v!(c04_descendant, c04_desc_, sized_depths);

/// Dynamic source, bounded destination.
const OVER: [usize; 8] = [1, 2, 3, 4, 8, 16, 64, 192];
fn c04_conv_<A: Vx, B: Ix<C = A::C>>(p: usize)
where
    B: TryFrom<A, Error = Error>,
{
    let n = if p < 8 { B::CAP + OVER[p] } else if p == 8 { 256 } else if p == 9 { 257 } else if p == 10 { 256 + B::CAP } else { 65536 + [0, 1, B::CAP][p - 11] };
    let a = some(A::zero(n), "a dynamic index of any depth exists");
    ma_check(a.dep() == n, "dynamic indices have no capacity");
    rejects::<B, B>(B::try_from(a), "a dynamic index deeper than the capacity is converted");
}
fn eleven<A, B>(_t: bool) -> (u64, u64, u64) {
    (0, 13, 1)
}
conv_dyn!(c04_convert, c04_conv_, eleven);
/// A dynamic index accepts any depth.
fn c04_dyn_<X: Vx>(p: usize) {
    let n = [65, 255, 256, 257, 300][p];
    let ks = [X::mk(1)].repeat(n);
    let x = ok(X::build(&ks), "dynamic indices have no capacity");
    ma_check(x.dep() == n, "dynamic indices have no capacity");
    let y = some(x.desc(&ks), "dynamic indices have no capacity");
    ma_check(y.dep() == 2 * n, "dynamic indices have no capacity");
}
fn five<X>(_t: bool) -> (u64, u64, u64) {
    (0, 4, 1)
}
inst_list!(c04_dynamic, c04_dyn_, five, [d2: D2, d3: D3]);

/// The named types are what their names say.
trait Named {
    const IS: (usize, u8, usize);
}
macro_rules! named_family {
    ($i:ident, $f:ident, $s:ident, $d:ident, $n:literal) => {
        impl<B: FixedStorageType> Named for $i<$f<B>> {
            const IS: (usize, u8, usize) = ($n, FIXED, size_of_bits::<B>());
        }
        impl<B: FixedStorageType> Named for $i<$s<B>> {
            const IS: (usize, u8, usize) = ($n, STATIC, size_of_bits::<B>());
        }
        impl Named for $i<$d> {
            const IS: (usize, u8, usize) = ($n, DYN, 0);
        }
    };
}
const fn size_of_bits<B>() -> usize {
    std::mem::size_of::<B>() * 8
}
named_family!(MortonIndex2D, FixedDepthStorage2D, StaticStorage2D, DynamicStorage2D, 2);
named_family!(MortonIndex3D, FixedDepthStorage3D, StaticStorage3D, DynamicStorage3D, 3);
fn c04_named_<X>(_p: usize) {
    macro_rules! are { ($($t:ty = $d:literal $k:ident $w:literal),* $(,)?) => { $(
        ma_check(<$t as Named>::IS == ($d, $k, $w), concat!(stringify!($t), " is the index type of its name"));
    )* }; }
    are!(
        FixedDepthMortonIndex2D8 = 2 FIXED 8, FixedDepthMortonIndex2D16 = 2 FIXED 16, FixedDepthMortonIndex2D32 = 2 FIXED 32,
        FixedDepthMortonIndex2D64 = 2 FIXED 64, FixedDepthMortonIndex2D128 = 2 FIXED 128,
        StaticMortonIndex2D8 = 2 STATIC 8, StaticMortonIndex2D16 = 2 STATIC 16, StaticMortonIndex2D32 = 2 STATIC 32,
        StaticMortonIndex2D64 = 2 STATIC 64, StaticMortonIndex2D128 = 2 STATIC 128, DynamicMortonIndex2D = 2 DYN 0,
        FixedDepthMortonIndex3D8 = 3 FIXED 8, FixedDepthMortonIndex3D16 = 3 FIXED 16, FixedDepthMortonIndex3D32 = 3 FIXED 32,
        FixedDepthMortonIndex3D64 = 3 FIXED 64, FixedDepthMortonIndex3D128 = 3 FIXED 128,
        StaticMortonIndex3D8 = 3 STATIC 8, StaticMortonIndex3D16 = 3 STATIC 16, StaticMortonIndex3D32 = 3 STATIC 32,
        StaticMortonIndex3D64 = 3 STATIC 64, StaticMortonIndex3D128 = 3 STATIC 128, DynamicMortonIndex3D = 3 DYN 0,
    );
}
inst_list!(c04_named, c04_named_, one_task, [names: D2]);
