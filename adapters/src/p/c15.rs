//! Entries of property C15.
use super::*;

fn c15<T: Int>(p: usize) {
    let x: T = ma_sym("value");
    let full: T = ma_sym("new");
    let wfull: usize = ma_sym("new word");
    let a = p;
    let mut b = a + 1;
    while b <= T::W {
        ma_note("from", a);
        ma_note("to", b);
        let m = T::low(b - a);
        let v = full & m;
        ma_check(unsafe { x.get_bits(a..b) } == (x >> a) & m, "reading a bit range returns exactly those bits");
        let mut y = x;
        unsafe { y.set_bits(a..b, v) };
        let want = (x & !(m << a)) | (v << a);
        ma_check(y == want, "writing a bit range changes exactly those bits");
        if b - a <= usize::BITS as usize {
            ma_check(unsafe { x.get_bits_as_usize(a..b) } == ((x >> a) & m).word(), "reading a bit range as usize returns exactly those bits");
            let wv = wfull & <usize as Int>::low(b - a);
            let mut z = x;
            unsafe { z.set_bits_from_usize(a..b, wv) };
            ma_check(z == (x & !(m << a)) | (T::of_word(wv) << a), "writing a usize to a bit range changes exactly those bits");
        }
        b += 1;
    }
    ma_check(<T as Bits>::BITS == T::W, "BITS is the width");
}
fn bit_starts<T: Int>(_t: bool) -> (u64, u64, u64) {
    (0, T::W as u64 - 1, 1)
}
inst_list!(c15_ranges, c15, bit_starts, [u8: u8, u16: u16, u32: u32, u64: u64, u128: u128, usize: usize]);
