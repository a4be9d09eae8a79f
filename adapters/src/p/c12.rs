//! Entries of property C12.
use super::*;

pub mod c12_cells {
    use super::*;
    fn numbers<C, const K: usize>(of: fn(usize) -> usize, mk: fn(usize) -> C)
    where
        C: TryFrom<usize, Error = Error> + Into<usize> + Copy + PartialEq + Eq + Ord + Hash,
        for<'a> &'a C: Into<usize>,
    {
        let v: usize = ma_sym("number");
        match C::try_from(v) {
            Ok(c) => {
                ma_check(v < K, "numbers outside the range are rejected");
                let n: usize = c.into();
                ma_check(n == v, "converting a number to a cell and back gives the number");
                let r: usize = (&c).into();
                ma_check(r == v, "converting a cell reference gives the number");
                ma_check(of(v) == v, "index() gives the number");
                ma_check(c == mk(v), "the number selects the cell named after it");
            }
            Err(Error::CellIndexOutOfRange) => ma_check(v >= K, "numbers inside the range are accepted"),
            Err(_) => ma_check(false, "the rejection is the out-of-range error"),
        }
    }
    pub fn quadrant() {
        fn of(k: usize) -> usize {
            quad(k).index()
        }
        numbers::<Quadrant, 4>(of, quad)
    }
    pub fn octant() {
        fn of(k: usize) -> usize {
            oct(k).index()
        }
        numbers::<Octant, 8>(of, oct)
    }
    fn relations<C: Copy + Ord + Hash>(a: usize, b: usize, x: C, y: C) {
        ma_check((x == y) == (a == b), "cells are equal exactly when their numbers are");
        ma_check((x != y) == (a != b), "cells are equal exactly when their numbers are");
        ma_check((x < y) == (a < b), "cells compare like their numbers");
        ma_check((x > y) == (a > b), "cells compare like their numbers");
        ma_check(x.cmp(&y) == a.cmp(&b), "cells compare like their numbers");
        ma_check(x.partial_cmp(&y) == a.partial_cmp(&b), "cells compare like their numbers");
        ma_check((x <= y) == (a <= b), "cells compare like their numbers");
        ma_check((x >= y) == (a >= b), "cells compare like their numbers");
        ma_check(x.max(y) == if a > b { x } else { y }, "cells compare like their numbers");
        ma_check(x.min(y) == if a > b { y } else { x }, "cells compare like their numbers");
        let mut z = x;
        z.clone_from(&y);
        ma_check(z == y, "a copy of a cell is the cell");
        let (h, k) = (hash_of(&x), hash_of(&y));
        ma_assume(a == b);
        ma_same_bytes(&h, &k, "equal cells hash alike");
        same_hash_in_list(&x, &y, "equal cells hash alike");
    }
    pub fn quadrant_relations() {
        let (a, b) = (sym_cell("a", 0, 2), sym_cell("b", 0, 2));
        relations(a, b, quad(a), quad(b))
    }
    pub fn octant_relations() {
        let (a, b) = (sym_cell("a", 0, 3), sym_cell("b", 0, 3));
        relations(a, b, oct(a), oct(b))
    }
}
