//! Entries of property C28.
use super::*;

fn c28<T: Int>(_p: usize) {
    let x: T = ma_sym("value");
    unsafe {
        ma_check(x.as_u8() as u128 == wide(x) & 0xff, "as_u8 keeps the low bits");
        ma_check(x.as_u16() as u128 == wide(x) & 0xffff, "as_u16 keeps the low bits");
        ma_check(x.as_u32() as u128 == wide(x) & 0xffff_ffff, "as_u32 keeps the low bits");
        ma_check(x.as_u64() as u128 == wide(x) & 0xffff_ffff_ffff_ffff, "as_u64 keeps the low bits");
        ma_check(x.as_u128() == wide(x), "as_u128 keeps the value");
        ma_check(x.as_usize() as u128 == wide(x) & usize::MAX as u128, "as_usize keeps the low bits");
        let v: u128 = ma_sym("source");
        let m = if T::W == 128 { u128::MAX } else { (1 << T::W) - 1 };
        ma_check(wide(T::from_u8(v as u8)) == v & 0xff & m, "from_u8 keeps the bits that fit");
        ma_check(wide(T::from_u16(v as u16)) == v & 0xffff & m, "from_u16 keeps the bits that fit");
        ma_check(wide(T::from_u32(v as u32)) == v & 0xffff_ffff & m, "from_u32 keeps the bits that fit");
        ma_check(wide(T::from_u64(v as u64)) == v & 0xffff_ffff_ffff_ffff & m, "from_u64 keeps the bits that fit");
        ma_check(wide(T::from_u128(v)) == v & m, "from_u128 keeps the bits that fit");
        ma_check(wide(T::from_usize(v as usize)) == v & usize::MAX as u128 & m, "from_usize keeps the bits that fit");
        ma_check(Bits::size(&x) == T::W / 8, "size is the number of bytes");
        let s = x.as_u8_slice();
        ma_check(s.len() == T::W / 8, "the byte view covers the value");
        let mut i = 0;
        while i < s.len() {
            let pos = if cfg!(target_endian = "little") { i } else { s.len() - 1 - i };
            ma_check(s[i] as u128 == (wide(x) >> (8 * pos)) & 0xff, "the byte view is in native byte order");
            i += 1;
        }
        let mut y = x;
        let k: u8 = ma_sym("byte");
        let mut i = 0;
        while i < T::W / 8 {
            y.as_u8_slice_mut()[i] = k;
            i += 1;
        }
        let mut w = 0u128;
        let mut i = 0;
        while i < T::W / 8 {
            w = w << 8 | k as u128;
            i += 1;
        }
        ma_check(wide(y) == w, "writing the byte view writes the value");
    }
}
fn wide<T: Int>(x: T) -> u128 {
    let mut r = 0u128;
    let mut i = 0;
    while i < T::W {
        r |= ((x >> i).word() as u128 & 1) << i;
        i += 1;
    }
    r
}
inst_list!(c28_casts, c28, once, [u8: u8, u16: u16, u32: u32, u64: u64, u128: u128, usize: usize]);
fn c28_slice_<T: Int>(p: usize) {
    let (v, _) = bytes_of_len(p);
    let n = T::W / 8;
    let mut le = 0u128;
    let mut be = 0u128;
    let mut i = 0;
    while i < n {
        let b = if i < p { v[i] as u128 } else { 0 };
        le |= b << (8 * i);
        be = be << 8 | b;
        i += 1;
    }
    unsafe {
        ma_check(wide(T::from_u8_slice(&v, Endianness::LittleEndian)) == le, "little-endian bytes are read with missing ones zero and excess ones ignored");
        if n > 1 {
            ma_check(wide(T::from_u8_slice(&v, Endianness::BigEndian)) == be, "big-endian bytes are read with missing ones zero and excess ones ignored");
        }
    }
}
/// Slices far longer than the number.
fn c28_long_<T: Int>(p: usize) {
    c28_slice_::<T>([31, 32, 33, 64, 127, 128, 129, 200, 255, 256, 257, 258, 264, 272, 511, 512, 513, 520, 65535, 65536, 65537, 65538, 65544][p]);
}
fn long_lens<T: Int>(t: bool) -> (u64, u64, u64) {
    (0, if t { 22 } else { 17 }, 1)
}
inst_list!(c28_longer, c28_long_, long_lens, [u8: u8, u16: u16, u32: u32, u64: u64, u128: u128, usize: usize]);
fn slice_lens<T: Int>(_t: bool) -> (u64, u64, u64) {
    (0, T::W as u64 / 8 + 3, 1)
}
inst_list!(c28_slices, c28_slice_, slice_lens, [u8: u8, u16: u16, u32: u32, u64: u64, u128: u128, usize: usize]);
pub mod c28_vectors {
    use super::*;
    pub fn round_trip() {
        let v: u128 = ma_sym("value");
        unsafe {
            ma_check(<Vec<u8> as Bits>::from_u8(v as u8).as_u8() == v as u8, "a byte vector gives back the number it was made from");
            ma_check(<Vec<u8> as Bits>::from_u16(v as u16).as_u16() == v as u16, "a byte vector gives back the number it was made from");
            ma_check(<Vec<u8> as Bits>::from_u32(v as u32).as_u32() == v as u32, "a byte vector gives back the number it was made from");
            ma_check(<Vec<u8> as Bits>::from_u64(v as u64).as_u64() == v as u64, "a byte vector gives back the number it was made from");
            ma_check(<Vec<u8> as Bits>::from_u128(v).as_u128() == v, "a byte vector gives back the number it was made from");
            ma_check(<Vec<u8> as Bits>::from_usize(v as usize).as_usize() == v as usize, "a byte vector gives back the number it was made from");
        }
    }
    pub fn views(n: usize) {
        let (v, w) = bytes_of_len(n);
        unsafe {
            ma_same_bytes(v.as_u8_slice(), &v, "the byte view is the vector");
            ma_check(Bits::size(&v) == n, "size is the number of bytes");
            let mut y = v.clone();
            let mut i = 0;
            while i < n {
                y.as_u8_slice_mut()[i] = w[i];
                i += 1;
            }
            ma_same_bytes(&y, &w, "writing the byte view writes the vector");
        }
    }
    /// A vector made from bytes in a named byte order holds them in the machine's order.
    pub fn from_bytes(n: usize) {
        let (v, _) = bytes_of_len(n);
        let mut r = v.clone();
        r.reverse();
        unsafe {
            let le = <Vec<u8> as Bits>::from_u8_slice(&v, Endianness::LittleEndian);
            let be = <Vec<u8> as Bits>::from_u8_slice(&v, Endianness::BigEndian);
            let (same, other) = if cfg!(target_endian = "little") { (&le, &be) } else { (&be, &le) };
            ma_same_bytes(same, &v, "a byte vector made from bytes in the machine's order holds them as they are");
            ma_same_bytes(other, &r, "a byte vector made from bytes in the other order holds them reversed");
            if n == 4 {
                let k = [v[0], v[1], v[2], v[3]];
                ma_check(le.as_u32() == u32::from_le_bytes(k), "a byte vector gives the number its bytes spell in the named order");
                ma_check(be.as_u32() == u32::from_be_bytes(k), "a byte vector gives the number its bytes spell in the named order");
            }
            if n == 1 {
                ma_check(<Vec<u8> as Bits>::from_u8_slice(&v, Endianness::BigEndian).as_u8() == v[0], "a byte vector gives the number its bytes spell in the named order");
            }
            // The copying conversion to usize: the bits asked for, from the least significant byte on.
            if n * 8 <= usize::BITS as usize {
                let mut w = 0usize;
                let mut i = 0;
                while i < n {
                    w |= (v[i] as usize) << (8 * i);
                    i += 1;
                }
                ma_check(v.get_bits_as_usize(0..8 * n) == w, "reading all bits of a byte vector gives its little-endian value");
            }
        }
    }
    pub mod range {
        pub fn views(_t: bool) -> (u64, u64, u64) {
            (0, 5, 1)
        }
        pub fn from_bytes(t: bool) -> (u64, u64, u64) {
            (0, if t { 40 } else { 17 }, 1)
        }
    }
}
