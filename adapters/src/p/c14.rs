//! Entries of property C14.
use super::*;

fn digits<X: Ix>(e: &[usize], root: bool) -> Vec<u8> {
    let mut v = Vec::new();
    if root {
        v.push(b'r');
    }
    let mut i = 0;
    while i < e.len() {
        v.push(b'0' + e[i] as u8);
        i += 1;
    }
    v
}
pub fn c14<X: Ix>(p: usize) {
    let n = dd::<X>(p);
    let ks = syms::<X>("cell", n);
    let x: X = from_nums(&ks);
    let e = pad::<X>(&ks);
    ma_same_bytes(x.name(MortonIndexNaming::CellConcatenation).as_bytes(), &digits::<X>(&e, false), "the cell name is one digit per level");
    ma_same_bytes(x.name(MortonIndexNaming::CellConcatenationWithRoot).as_bytes(), &digits::<X>(&e, true), "the rooted cell name is 'r' and one digit per level");
}
inst!(c14_cells, c14, own_depths);
pub fn c14_grid_<X: Ix>(p: usize) {
    let ks = syms::<X>("cell", p);
    let x: X = from_nums(&ks);
    let e = pad::<X>(&ks);
    let g = grid_of::<X>(&e, 0);
    let mut s = String::new();
    s.push_str(&std::string::ToString::to_string(&e.len()));
    let mut a = 0;
    while a < X::D {
        s.push('-');
        s.push_str(&std::string::ToString::to_string(&g[a]));
        a += 1;
    }
    ma_same_bytes(x.name(MortonIndexNaming::GridIndex).as_bytes(), s.as_bytes(), "the grid name is depth and coordinates joined by '-'");
}
inst!(c14_grid, c14_grid_, word_depths);
/// Two abstract cells among fixed ones: the same at every depth, whatever way the text is produced.
pub fn c14_fixed_<X: Ix>(p: usize) {
    let n = dd::<X>(p);
    let hi = (1 << X::D) - 1;
    let mut r = 0;
    while r < 2 {
        let mut ks = Vec::with_capacity(n);
        let mut l = 0;
        while l < n {
            ks.push(if r == 0 { (l * 3 + 1) & hi } else { hi * (l & 1) });
            l += 1;
        }
        if n > 0 {
            ks[n * 2 / 3] = sym_cell("cell", n * 2 / 3, 2);
            ks[0] = sym_cell("cell", 0, 1);
        }
        let x: X = from_nums(&ks);
        let e = pad::<X>(&ks);
        ma_same_bytes(x.name(MortonIndexNaming::CellConcatenation).as_bytes(), &digits::<X>(&e, false), "the cell name is one digit per level");
        ma_same_bytes(x.name(MortonIndexNaming::CellConcatenationWithRoot).as_bytes(), &digits::<X>(&e, true), "the rooted cell name is 'r' and one digit per level");
        r += 1;
    }
}
inst!(c14_fixed, c14_fixed_, own_depths);
pub fn c14_gridf_<X: Ix>(p: usize) {
    let hi = (1 << X::D) - 1;
    let mut r = 0;
    while r < 3 {
        // mixed coordinates, very small ones, very large ones
        let mut ks = Vec::with_capacity(p);
        let mut l = 0;
        while l < p {
            ks.push([(l * 3 + 3) & hi, 0, hi][r]);
            l += 1;
        }
        if p > 0 {
            ks[p - 1] = if r == 0 { sym_cell("cell", p - 1, 1) * 3 } else { sym_cell("cell", p - 1, X::D) };
            if r == 0 {
                ks[0] = sym_cell("cell", 0, X::D);
            }
        }
        let x: X = from_nums(&ks);
        let e = pad::<X>(&ks);
        let g = grid_of::<X>(&e, 0);
        let mut s = String::new();
        s.push_str(&std::string::ToString::to_string(&e.len()));
        let mut a = 0;
        while a < X::D {
            s.push('-');
            s.push_str(&std::string::ToString::to_string(&g[a]));
            a += 1;
        }
        ma_same_bytes(x.name(MortonIndexNaming::GridIndex).as_bytes(), s.as_bytes(), "the grid name is depth and coordinates joined by '-'");
        r += 1;
    }
}
inst!(c14_gridfixed, c14_gridf_, word_depths);
/// Deep indices.
fn c14_far<X: Vx>(p: usize) {
    let n = [1029, 4101][p / 2];
    let mut ks = [0usize].repeat(n);
    let ls = some_levels(n);
    let mut i = 0;
    while i < ls.len() {
        ks[ls[i]] = if i % 3 == 0 { sym_cell("cell", ls[i], X::D) } else { ls[i] & ((1 << X::D) - 1) };
        i += 1;
    }
    let x: X = from_nums(&ks);
    let mut want = String::with_capacity(n + 1);
    if p % 2 == 1 {
        want.push('r');
    }
    let mut i = 0;
    while i < n {
        want.push((b'0' + ks[i] as u8) as char);
        i += 1;
    }
    let s = x.name(if p % 2 == 1 { MortonIndexNaming::CellConcatenationWithRoot } else { MortonIndexNaming::CellConcatenation });
    ma_same_bytes(s.as_bytes(), want.as_bytes(), "the cell name is one digit per level");
}
fn four<X>(_t: bool) -> (u64, u64, u64) {
    (0, 3, 1)
}
inst_list!(c14_huge, c14_far, four, [d2: D2, d3: D3]);
