//! Entries of property C09.
use super::*;

pub fn c09<X: Ix>(p: usize) {
    let ks = syms::<X>("cell", p);
    let x: X = from_nums(&ks);
    let e = pad::<X>(&ks);
    let mut o = 0;
    while o < X::ORDERS {
        ma_note("ordering", o);
        let g = x.grid(o);
        let w = grid_of::<X>(&e, o);
        ma_check(g[0] == w[0], "x of the grid index");
        ma_check(g[1] == w[1], "y of the grid index");
        ma_check(g[2] == w[2], "z of the grid index");
        o += 1;
    }
}
inst!(c09_bits, c09, word_depths);
