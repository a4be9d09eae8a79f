//! Entries of property C27.
use super::*;

fn bit_of(v: &[u8], i: usize) -> u8 {
    (v[i / 8] >> (i % 8)) & 1
}
pub mod c27_bytes {
    use super::*;
    /// p = 64 * length + start
    pub fn ranges(p: usize) {
        let (n, a) = (p / 256 + 1, p % 256);
        if a >= 8 * n {
            ma_stop()
        }
        let (v, w) = bytes_of_len(n);
        let mut b = a + 1;
        while b <= 8 * n {
            ma_note("length", n);
            ma_note("from", a);
            ma_note("to", b);
            let k = b - a;
            let r = unsafe { v.get_bits(a..b) };
            ma_check(r.len() == (k + 7) / 8, "a bit range is returned in as few bytes as hold it");
            // the value to write: k bits of w
            let mut new = Vec::with_capacity((k + 7) / 8);
            let mut word = 0usize;
            let mut i = 0;
            while i < (k + 7) / 8 {
                let m = if 8 * (i + 1) <= k { 0xff } else { (1u8 << (k - 8 * i)) - 1 };
                new.push(w[i] & m);
                if r.len() == (k + 7) / 8 {
                    let mut want = v[(a + 8 * i) / 8] >> (a % 8);
                    if a % 8 != 0 && (a + 8 * i) / 8 + 1 < n {
                        want |= v[(a + 8 * i) / 8 + 1] << (8 - a % 8);
                    }
                    ma_check(r[i] == want & m, "reading a bit range returns exactly those bits");
                }
                if i < usize::BITS as usize / 8 {
                    word |= (new[i] as usize) << (8 * i);
                }
                i += 1;
            }
            let mut want = Vec::with_capacity(n);
            let mut i = 0;
            while i < n {
                // bits of byte i that are inside the range
                let lo = if a > 8 * i { if a < 8 * i + 8 { a - 8 * i } else { 8 } } else { 0 };
                let hi = if b < 8 * i + 8 { if b > 8 * i { b - 8 * i } else { 0 } } else { 8 };
                let mut byte = v[i];
                let mut j = lo;
                while j < hi {
                    let src = 8 * i + j - a;
                    byte = (byte & !(1 << j)) | (bit_of(&new, src) << j);
                    j += 1;
                }
                want.push(byte);
                i += 1;
            }
            let mut y = v.clone();
            unsafe { y.set_bits(a..b, new.clone()) };
            equal_bytes(&y, &want, "writing a bit range changes exactly those bits");
            if k <= usize::BITS as usize {
                let mut z = v.clone();
                unsafe { z.set_bits_from_usize(a..b, word) };
                equal_bytes(&z, &want, "writing a usize to a bit range changes exactly those bits");
                let g = unsafe { v.get_bits_as_usize(a..b) };
                let mut want = 0usize;
                let mut i = 0;
                while i < k {
                    want |= (bit_of(&v, a + i) as usize) << i;
                    i += 1;
                }
                ma_check(g == want, "reading a bit range as usize returns exactly those bits");
            }
            b += 1;
        }
    }
    fn equal_bytes(a: &[u8], b: &[u8], tag: &'static str) {
        ma_check(a.len() == b.len(), "writing a bit range keeps the length");
        let mut i = 0;
        while i < a.len() && i < b.len() {
            ma_note("byte", i);
            ma_check(a[i] == b[i], tag);
            i += 1;
        }
    }
    /// Ranges far from the start of longer vectors.
    pub fn far(p: usize) {
        let a = [125, 250, 255, 256, 257, 511, 1021, 2039, 2043, 2047, 2048, 2051, 4099, 65531, 65535, 65536, 65539][p / 8];
        let k = [1, 3, 8, 9, 16, 33, 64, 70][p % 8];
        access(a, k)
    }
    /// Long ranges.
    pub fn long(p: usize) {
        let (a, k) = [(0, 128), (0, 160), (3, 155), (7, 128), (0, 129), (5, 136), (8, 136), (1, 256), (4, 300), (0, 512), (6, 513), (3, 1030), (0, 2056), (3, 2061)][p];
        access(a, k)
    }
    fn access(a: usize, k: usize) {
        let n = (a + k) / 8 + 4;
        let mut v = Vec::with_capacity(n);
        let mut new = Vec::new();
        let mut i = 0;
        while i < n {
            v.push(if i + 3 > a / 8 { sym_cell("byte", i, 8) as u8 } else { (i * 37 + 11) as u8 });
            i += 1;
        }
        ma_note("from", a);
        ma_note("to", a + k);
        let mut word = 0usize;
        let mut i = 0;
        while i < (k + 7) / 8 {
            let m = if 8 * (i + 1) <= k { 0xff } else { (1u8 << (k - 8 * i)) - 1 };
            new.push(sym_cell("new", i, 8) as u8 & m);
            if i < usize::BITS as usize / 8 {
                word |= (new[i] as usize) << (8 * i);
            }
            i += 1;
        }
        let r = unsafe { v.get_bits(a..a + k) };
        ma_check(r.len() == (k + 7) / 8, "a bit range is returned in as few bytes as hold it");
        let mut i = 0;
        while i < k && i / 8 < r.len() {
            ma_check(bit_of(&r, i) == bit_of(&v, a + i), "reading a bit range returns exactly those bits");
            i += 1;
        }
        let mut want = v.clone();
        let mut i = 0;
        while i < k {
            let q = (a + i) % 8;
            want[(a + i) / 8] = (want[(a + i) / 8] & !(1 << q)) | (bit_of(&new, i) << q);
            i += 1;
        }
        let mut y = v.clone();
        unsafe { y.set_bits(a..a + k, new.clone()) };
        equal_bytes(&y, &want, "writing a bit range changes exactly those bits");
        if k <= usize::BITS as usize {
            let mut z = v.clone();
            unsafe { z.set_bits_from_usize(a..a + k, word) };
            equal_bytes(&z, &want, "writing a usize to a bit range changes exactly those bits");
            let g = unsafe { v.get_bits_as_usize(a..a + k) };
            let mut want = 0usize;
            let mut i = 0;
            while i < k {
                want |= (bit_of(&v, a + i) as usize) << i;
                i += 1;
            }
            ma_check(g == want, "reading a bit range as usize returns exactly those bits");
        }
    }
    pub mod range {
        pub fn long(_t: bool) -> (u64, u64, u64) {
            (0, 13, 1)
        }
        pub fn far(t: bool) -> (u64, u64, u64) {
            (0, 17 * 8 - 1, if t { 1 } else { 3 })
        }
        pub fn ranges(t: bool) -> (u64, u64, u64) {
            (0, if t { 256 * 20 } else { 256 * 9 - 1 }, 1)
        }
    }
}
