//! Entries of property C10.
use super::*;

pub fn c10<X: Ix>(p: usize) {
    let g: [usize; 3] = [ma_sym("x"), ma_sym("y"), ma_sym("z")];
    let mut o = 0;
    while o < X::ORDERS {
        ma_note("ordering", o);
        let x = ok(X::from_grid(g, p, o), "a grid index whose depth is accepted");
        let ks = cells_of_grid::<X>(g, p, o);
        reads(&x, &ks, "the cell at each level is the one the ordering maps to the coordinate bits");
        let y: X = from_nums(&ks);
        same(&x, &y, "the index equals the one built from those cells");
        same_hash(&x, &y, "the index hashes like the one built from those cells");
        let fits = p <= usize::BITS as usize;
        let r = if fits { x.grid(o) } else { [0; 3] };
        let m = if p >= usize::BITS as usize { usize::MAX } else { (1usize << p) - 1 };
        let mut a = 0;
        while fits && a < X::D {
            ma_check(r[a] == g[a] & m, "reading the grid index back gives the coordinates");
            a += 1;
        }
        o += 1;
    }
}
fn c10_depths<X: Ix>(t: bool) -> (u64, u64, u64) {
    match X::KIND {
        FIXED if X::CAP > usize::BITS as usize => (1, 0, 1),
        _ => grid_depths::<X>(t),
    }
}
inst!(c10_inverse, c10, c10_depths);
