//! Specification primitives.  The `ma_*` functions are given their meaning by the analysis engine.
use std::fmt;

/// A fresh abstract bit named `name[i].j`.
pub fn ma_bit(_name: &'static str, _i: usize, _j: usize) -> bool {
    loop {}
}
/// A fresh abstract integer (every value of the type).
pub fn ma_sym<T>(_name: &'static str) -> T {
    loop {}
}
/// Restrict the inputs considered.
pub fn ma_assume(_c: bool) {
    loop {}
}
/// An obligation: must hold for every input considered.
pub fn ma_check(_c: bool, _tag: &'static str) {
    loop {}
}
/// Between these two calls the code must panic on every input considered.
pub fn ma_expect_panic_begin() {
    loop {}
}
pub fn ma_expect_panic_end(_tag: &'static str) -> ! {
    loop {}
}
/// `x`, and what it owns, must be unchanged when an expected panic happens.
pub fn ma_keep<T>(_x: &T, _tag: &'static str) {
    loop {}
}
/// Between `ma_no_alloc(true)` and `ma_no_alloc(false)` the code must not allocate heap memory.
pub fn ma_no_alloc(_on: bool) {
    loop {}
}
pub fn ma_stop() -> ! {
    loop {}
}
pub fn ma_note(_name: &'static str, _v: usize) {
    loop {}
}
/// Both byte strings have the same length and content on every input considered.
pub fn ma_same_bytes(_a: &[u8], _b: &[u8], _tag: &'static str) {
    loop {}
}
pub fn ma_unsupported(_why: &'static str) -> ! {
    loop {}
}

/// Formatting of an abstract number: `s` stands for its decimal digits.
pub fn emit_tok(f: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result {
    if f.width().is_some() || f.precision().is_some() || f.sign_plus() || f.sign_aware_zero_pad() {
        ma_unsupported("padded or signed formatting of an abstract number")
    }
    f.write_str(s)
}
pub fn emit_digits(f: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result {
    f.pad_integral(true, "", s)
}
pub fn tok_string(s: &str) -> String {
    String::from(s)
}
