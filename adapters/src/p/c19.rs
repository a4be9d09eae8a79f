//! Entries of property C19.
use super::*;

pub mod c19_align {
    use super::*;
    // powers of two, then alignments close to the maximum, then small constants
    macro_rules! wide {
        ($n:ident, $t:ident) => {
            pub fn $n(p: usize) {
                let x = ma_sym::<$t>("value");
                let w = $t::BITS as usize;
                let a: $t = if p < w {
                    1 << p
                } else if p < w + 4 {
                    [0, $t::MAX, $t::MAX - 1, $t::MAX / 2][p - w]
                } else {
                    (p - w - 2) as $t
                };
                one::<$t>(x, a)
            }
        };
    }
    // any alignment, the value within a window around multiples of it and around the type's limits;
    // and any value, the alignment within a window
    macro_rules! window {
        ($n:ident, $t:ident) => {
            pub fn $n(p: usize) {
                let s = ma_sym::<u8>("offset") as $t;
                let w = $t::BITS as usize;
                let k = p / 3;
                let a: $t = match p % 3 {
                    0 => ((1 as $t) << k).wrapping_sub(1),
                    1 => ((1 as $t) << k).wrapping_add(1),
                    _ => ($t::MAX / 3 * 2) >> k,
                };
                let q = if a == 0 { 0 } else { $t::MAX / a };
                let starts: [$t; 7] = [
                    0,
                    a.wrapping_sub(128),
                    a.wrapping_mul(2).wrapping_sub(128),
                    a.wrapping_mul(q / 2).wrapping_sub(128),
                    a.wrapping_mul(q).wrapping_sub(128),
                    ($t::MAX / 2).wrapping_sub(127),
                    $t::MAX - 255,
                ];
                let mut i = 0;
                while i < 7 {
                    ma_note("window", i);
                    holds::<$t>(starts[i].wrapping_add(s), a);
                    holds::<$t>(a, starts[i].wrapping_add(s));
                    i += 1;
                }
            }
        };
    }
    trait Al: Alignable + Copy + Eq + Ord + std::ops::Rem<Output = Self> + std::ops::Sub<Output = Self> {
        const Z: Self;
        const MX: Self;
        fn over(self, o: Self) -> (Self, bool);
    }
    macro_rules! al {
        ($($t:ident)*) => { $(impl Al for $t {
            const Z: $t = 0;
            const MX: $t = $t::MAX;
            fn over(self, o: $t) -> ($t, bool) { self.overflowing_add(o) }
        })* };
    }
    al!(u8 u16 u32 u64 u128 usize);
    fn one<T: Al>(x: T, a: T) {
        if a == T::Z {
            ma_check(x.align_to(a) == x, "alignment 0 returns the value itself");
        } else {
            let rem = x % a;
            let up = if rem == T::Z { T::Z } else { a - rem };
            let (want, over) = x.over(up);
            ma_assume(!over);
            ma_check(x.align_to(a) == want, "the result is the smallest multiple not below the value");
        }
    }
    /// Like `one`, without restricting the inputs for what follows.
    fn holds<T: Al>(x: T, a: T) {
        if a == T::Z {
            ma_check(x.align_to(a) == x, "alignment 0 returns the value itself");
        } else {
            let rem = x % a;
            let up = if rem == T::Z { T::Z } else { a - rem };
            let (want, over) = x.over(up);
            if !over {
                ma_check(x.align_to(a) == want, "the result is the smallest multiple not below the value");
            }
        }
    }
    // single pairs, for computations only possible on known numbers
    macro_rules! pairs {
        ($n:ident, $t:ident) => {
            pub fn $n(p: usize) {
                let w = $t::BITS as usize;
                let ks = [3, 5, 7, 8, 12, 15, 16, 20, 24, 31, 32, 40, 52, 53, 54, 63, 64, 100, 127];
                let mut v: Vec<$t> = vec![1, 3, 10, 100, $t::MAX, $t::MAX - 1, $t::MAX / 3];
                for k in ks {
                    if k < w {
                        v.push((1 as $t) << k);
                        v.push(((1 as $t) << k) - 1);
                        v.push(((1 as $t) << k) + 1);
                    }
                }
                let a = v[p % v.len()];
                for x in &v {
                    holds::<$t>(*x, a);
                    holds::<$t>(*x / 3, a);
                }
            }
        };
    }
    pairs!(u32_pairs, u32);
    pairs!(u64_pairs, u64);
    pairs!(u128_pairs, u128);
    pairs!(usize_pairs, usize);
    pub fn u8_all() {
        // the alignment's bits first: the quotient automata stay small
        let a = ma_sym::<u8>("alignment");
        let x = ma_sym::<u8>("value");
        one::<u8>(x, a)
    }
    wide!(u8_const, u8);
    wide!(u16_const, u16);
    wide!(u32_const, u32);
    wide!(u64_const, u64);
    wide!(u128_const, u128);
    wide!(usize_const, usize);
    window!(u16_window, u16);
    window!(u32_window, u32);
    window!(u64_window, u64);
    window!(u128_window, u128);
    window!(usize_window, usize);
    pub mod range {
        macro_rules! r {
            ($($n:ident $t:ident $most:expr;)*) => { $(pub fn $n(_t: bool) -> (u64, u64, u64) { (0, $most + 2 + $t::BITS as u64, 1) })* };
        }
        r!(u8_const u8 60; u16_const u16 48; u32_const u32 40; u64_const u64 24; u128_const u128 20; usize_const usize 24;);
        macro_rules! rw {
            ($($n:ident $t:ident)*) => { $(pub fn $n(thorough: bool) -> (u64, u64, u64) { (0, 3 * $t::BITS as u64 - 1, if thorough { 1 } else { 7 }) })* };
        }
        macro_rules! rp {
            ($($n:ident $m:literal)*) => { $(pub fn $n(_t: bool) -> (u64, u64, u64) { (0, $m, 1) })* };
        }
        rp!(u32_pairs 36 u64_pairs 54 u128_pairs 63 usize_pairs 54);
        rw!(u16_window u16 u32_window u32 u64_window u64 u128_window u128 usize_window usize);
    }
}
