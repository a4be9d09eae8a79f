//! Entries of property C16.
use super::*;

pub mod c16_spread {
    use super::*;
    pub fn before_u8() {
        let v = ma_sym::<u8>("value") & 0x0f;
        let r = add_zero_before_every_bit_u8(v);
        let mut i = 0;
        while i < 8 {
            let want = if i % 2 == 0 { (v >> (i / 2)) & 1 } else { 0 };
            ma_note("bit", i);
            ma_check((r >> i) & 1 == want, "bit i moves to bit 2i, all others are zero");
            i += 1;
        }
    }
    pub fn behind_u8() {
        let v = ma_sym::<u8>("value") & 0x0f;
        let r = add_zero_behind_every_bit_u8(v);
        let mut i = 0;
        while i < 8 {
            let want = if i % 2 == 1 { (v >> (i / 2)) & 1 } else { 0 };
            ma_note("bit", i);
            ma_check((r >> i) & 1 == want, "bit i moves to bit 2i+1, all others are zero");
            i += 1;
        }
    }
    pub fn before_u16() {
        let v = ma_sym::<u16>("value") & 0xff;
        let r = add_zero_before_every_bit_u16(v);
        let mut i = 0;
        while i < 16 {
            let want = if i % 2 == 0 { (v >> (i / 2)) & 1 } else { 0 };
            ma_note("bit", i);
            ma_check((r >> i) & 1 == want, "bit i moves to bit 2i, all others are zero");
            i += 1;
        }
    }
    pub fn two_u8() {
        let v = ma_sym::<u8>("value");
        let r = add_two_zeroes_before_every_bit_u8(v);
        let mut i = 0;
        while i < 32 {
            let want = if i % 3 == 0 && i / 3 < 8 { ((v >> (i / 3)) & 1) as u32 } else { 0 };
            ma_note("bit", i);
            ma_check((r >> i) & 1 == want, "bit i moves to bit 3i, all others are zero");
            i += 1;
        }
    }
    pub fn two_u32() {
        let v = ma_sym::<u32>("value");
        let r = add_two_zeroes_before_every_bit_u32(v);
        let mut i = 0;
        while i < 64 {
            let want = if i % 3 == 0 && i / 3 < 21 { ((v >> (i / 3)) & 1) as u64 } else { 0 };
            ma_note("bit", i);
            ma_check((r >> i) & 1 == want, "bit i below 21 moves to bit 3i, all others are zero");
            i += 1;
        }
    }
}
